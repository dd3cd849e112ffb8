From b753853be1fae7ca883615fe3c30af1217ad79c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:47 +0000
Subject: [PATCH 01/78] fix: align charge_duration with the cycle it belongs to

The merged start/finish frame has a positional index while the summary is
indexed by cycle number, so durations were shifted (or lost) whenever cycle
numbers did not start at 0 or were not contiguous.
---
 beep/structure/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index c37bfdd..f7d4d74 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -827,6 +827,8 @@ class BEEPDatapath(abc.ABC, MSONable):
             pd.to_datetime(merged.date_time_iso_y, utc=True, errors="coerce"),
             pd.to_datetime(merged.date_time_iso_x, utc=True, errors="coerce"),
         )
+        # merged is positional: align it with the cycle index before assigning
+        time_diff.index = merged.cycle_index
         summary["charge_duration"] = np.round(
             time_diff / np.timedelta64(1, "s"), 2)
 
-- 
2.43.0


From 1555ed74d89867e7ee28b694be7ade99019cecb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:47 +0000
Subject: [PATCH 02/78] fix: summarize_cycles leaves no scratch column in
 raw_data

DataFrame.drop returned a copy that was discarded.
---
 beep/structure/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index f7d4d74..d7a4918 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -853,7 +853,7 @@ class BEEPDatapath(abc.ABC, MSONable):
             )
 
         # Drop the time since cycle start column
-        self.raw_data.drop(columns=["time_since_cycle_start"])
+        self.raw_data.drop(columns=["time_since_cycle_start"], inplace=True)
 
         # Determine if any of the cycles has been paused
         summary["paused"] = self.raw_data.groupby("cycle_index").apply(
-- 
2.43.0


From 5bf58cd8f39c0f8f26dc9dc6766ac50b79cf0155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:47 +0000
Subject: [PATCH 03/78] fix: CV segment starting at the first row is not
 reduced to the last row

With i == 0 the index i-1 wrapped around to the end of the charge.
---
 beep/structure/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index d7a4918..32f1cea 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -1482,7 +1482,7 @@ def get_CV_segment_from_charge(charge, dt_tol=1, dVdt_tol=1e-5, dIdt_tol=1e-4):
             i = i+1
 
         # Filter for CV phase
-        return charge.loc[charge.test_time >= charge.test_time.iat[i-1]]
+        return charge.loc[charge.test_time >= charge.test_time.iat[max(i-1, 0)]]
 
 
 def get_CV_time(CV):
-- 
2.43.0


From 6188c6b98a3aaa30e04589ebb7f8c2f6d408a06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:47 +0000
Subject: [PATCH 04/78] fix: get_cycle_life when the capacity ends exactly at
 the threshold

The two comparisons disagreed at equality, raising IndexError.
---
 beep/structure/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index 32f1cea..de1e160 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -1155,7 +1155,7 @@ class BEEPDatapath(abc.ABC, MSONable):
         # If capacity falls below 80% of initial capacity by end of run
         if self.structured_summary.discharge_capacity.iloc[-1] / max_capacity <= threshold:
             cycle_life = self.structured_summary[
-                self.structured_summary.discharge_capacity < threshold * max_capacity
+                self.structured_summary.discharge_capacity / max_capacity <= threshold
             ].index[0]
         else:
             # Some cells do not degrade below the threshold (low degradation rate)
-- 
2.43.0


From b3efb3d2796acdcb935e13daa6292f298ca38908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:47 +0000
Subject: [PATCH 05/78] fix: step charge state when only the discharge capacity
 is usable

An increasing discharge capacity was reported as charging, and a two-point
charge step as discharging.
---
 beep/structure/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index de1e160..dbd42f3 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -1355,7 +1355,7 @@ def step_is_chg_state(step_df, chg, indeterminate_step_charge=True):
     if np.isnan(avg_chg_delta) and np.isnan(avg_dchg_delta):
         is_charging = None
     elif np.isnan(avg_chg_delta):
-        is_charging = avg_dchg_delta > 0
+        is_charging = not avg_dchg_delta > 0
     elif np.isnan(avg_dchg_delta):
         is_charging = avg_chg_delta > 0
     else:
-- 
2.43.0


From 854931539c4180b2932963f0a9a1bf801372baeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:47 +0000
Subject: [PATCH 06/78] fix: interpolate_cycles on raw data without a default
 index

The mask was built on a RangeIndex and could not be aligned.
---
 beep/structure/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index dbd42f3..f6d0aa8 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -709,7 +709,7 @@ class BEEPDatapath(abc.ABC, MSONable):
             diag_mask = self.raw_data.cycle_index.isin(self.diagnostic.all_ix)
             reg_mask = ~diag_mask
         else:
-            reg_mask = pd.Series([True] * self.raw_data.shape[0])
+            reg_mask = pd.Series(True, index=self.raw_data.index)
 
         reg_cycles = self.raw_data[reg_mask].cycle_index.unique()
 
-- 
2.43.0


From 130392d93d148b368e8355efcfd207110f4fa6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:47 +0000
Subject: [PATCH 07/78] fix: an unstructured datapath stays unstructured
 through a round trip

---
 beep/structure/base.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index f6d0aa8..b46747d 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -444,8 +444,11 @@ class BEEPDatapath(abc.ABC, MSONable):
         datapath = cls(raw_data=raw_data, metadata=metadata, paths=paths, schema=schema)
         datapath._is_legacy = is_legacy
 
-        datapath.structured_data = pd.DataFrame(d["cycles_interpolated"])
-        datapath.structured_summary = pd.DataFrame(d["summary"])
+        structured_data = d["cycles_interpolated"]
+        structured_summary = d["summary"]
+        datapath.structured_data = structured_data if structured_data is None else pd.DataFrame(structured_data)
+        datapath.structured_summary = structured_summary if structured_summary is None else pd.DataFrame(
+            structured_summary)
 
         diagnostic_summary = d.get("diagnostic_summary")
         diagnostic_data = d.get("diagnostic_interpolated")
-- 
2.43.0


From 27b76e6537d9cdb6aba5295caab044d3b4c507eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:31 +0000
Subject: [PATCH 08/78] fix: record exclude_cycles among the structuring
 parameters

The recorded provenance could not reproduce a run structured with excluded cycles.
---
 beep/structure/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index b46747d..5cbadab 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -562,7 +562,8 @@ class BEEPDatapath(abc.ABC, MSONable):
             "nominal_capacity": nominal_capacity,
             "full_fast_charge": full_fast_charge,
             "charge_axis": charge_axis,
-            "discharge_axis": discharge_axis
+            "discharge_axis": discharge_axis,
+            "exclude_cycles": exclude_cycles
         }
 
     @StructuringDecorators.must_not_be_legacy
-- 
2.43.0


From 58371d20087354b97bdf7a0e5ee6e83b35da0d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:19 +0000
Subject: [PATCH 09/78] fix: dangling Maccor step of a new cycle does not
 inherit the previous cycle's total

---
 beep/structure/maccor.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/beep/structure/maccor.py b/beep/structure/maccor.py
index 84be1de..be45cb3 100644
--- a/beep/structure/maccor.py
+++ b/beep/structure/maccor.py
@@ -239,6 +239,12 @@ class MaccorDatapath(BEEPDatapathWithEIS):
         # Update any dangling step without an end
         last_index = quantity_agg.index[-1]
         if end_step_inds[-1] < last_index:
+            # A dangling step that starts a new cycle starts from zero
+            if (
+                data.loc[begin_step_ind - 1, "cycle_index"]
+                != data.loc[begin_step_ind, "cycle_index"]
+            ):
+                cycle_sum = 0.0
             quantity_agg[begin_step_ind:] += cycle_sum
         return quantity_agg
 
-- 
2.43.0


From c3a2a3309092e1697b7e436f81b5a0e5268d8e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:13 +0000
Subject: [PATCH 10/78] fix: Novonix discharge energy of discharge-only cycles
 counts down from energy

---
 beep/structure/novonix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/structure/novonix.py b/beep/structure/novonix.py
index 3b20815..3d84c96 100644
--- a/beep/structure/novonix.py
+++ b/beep/structure/novonix.py
@@ -152,7 +152,7 @@ class NovonixDatapath(BEEPDatapath):
                 ix_range = data[data["cycle_index"] == cyc_ix].index
                 dchg_only_cycle_ix.append(cyc_ix)
                 for convention in ("capacity", "energy"):
-                    data.loc[ix_range, f"cycle_chg_max_{convention}"] = cyc_df["capacity"].max()
+                    data.loc[ix_range, f"cycle_chg_max_{convention}"] = cyc_df[convention].max()
         logger.warning(
             f"No charge steps found in cycles {dchg_only_cycle_ix}! "
             f"Using highest capacity reading to determine convention."
-- 
2.43.0


From 7a5d0f584348ca2ab5cc5fa6eb08012059a3290c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:13 +0000
Subject: [PATCH 11/78] fix: Battery Archive step time of a last record that
 starts a new step

---
 beep/structure/battery_archive.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beep/structure/battery_archive.py b/beep/structure/battery_archive.py
index 53999b7..4de885e 100644
--- a/beep/structure/battery_archive.py
+++ b/beep/structure/battery_archive.py
@@ -93,9 +93,9 @@ class BatteryArchiveDatapath(BEEPDatapath):
             n_repeats = scix - prev_scix
             arrays[i] = np.repeat(start_times.loc[prev_scix], n_repeats)
 
-        # include the final data point, which is not a real step change
+        # include the final data point, which belongs to the last step
         subtractor = np.concatenate(arrays, axis=0)
-        subtractor = np.append(subtractor, [subtractor[-1]])
+        subtractor = np.append(subtractor, [start_times.iloc[-1]])
 
         df["step_time"] = df["test_time (s)"] - subtractor
 
-- 
2.43.0


From 651713e56d1fbdb784c2cc4406f677ffbbe73461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:13 +0000
Subject: [PATCH 12/78] fix: keep Arbin timestamps to the second

---
 beep/conversion_schemas/arbin_conversion.yaml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/conversion_schemas/arbin_conversion.yaml b/beep/conversion_schemas/arbin_conversion.yaml
index 98a7098..889d92b 100644
--- a/beep/conversion_schemas/arbin_conversion.yaml
+++ b/beep/conversion_schemas/arbin_conversion.yaml
@@ -39,7 +39,7 @@ data_columns:
 data_types:
   data_point: 'int32'
   test_time: 'float64'
-  datetime: 'float32'
+  datetime: 'float64'
   step_time: 'float32'
   step_index: 'int16'
   cycle_index: 'int32'
-- 
2.43.0


From 98d6c883dee16153f03c9e1c1357070a870d34fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:50 +0000
Subject: [PATCH 13/78] fix: Maccor step times of a day or more do not wrap
 around

time.strftime over time.gmtime dropped whole days, so a rest or time limit of
24 h or more was written modulo 24 h.
---
 beep/protocol/maccor.py | 76 ++++++++++++++++-------------------------
 1 file changed, 30 insertions(+), 46 deletions(-)

diff --git a/beep/protocol/maccor.py b/beep/protocol/maccor.py
index 511c3e6..339176b 100644
--- a/beep/protocol/maccor.py
+++ b/beep/protocol/maccor.py
@@ -17,7 +17,6 @@ input parameters and procedure templates
 """
 
 import os
-import time
 from copy import deepcopy
 
 import numpy as np
@@ -29,6 +28,21 @@ from beep.utils import DashOrderedDict
 from beep.utils.waveform import convert_velocity_to_power_waveform, RapidChargeWave
 
 
+def format_step_time(seconds):
+    """
+    Formats a step duration for a procedure file, with as many hours as needed
+
+    Args:
+        seconds (float): duration in seconds, truncated to whole seconds
+
+    Returns:
+        str: duration as HH:MM:SS
+    """
+    minutes, seconds = divmod(int(seconds), 60)
+    hours, minutes = divmod(minutes, 60)
+    return "{:02d}:{:02d}:{:02d}".format(hours, minutes, seconds)
+
+
 class Procedure(DashOrderedDict):
     """
     Procedure file object. Provides factory methods
@@ -392,9 +406,7 @@ class Procedure(DashOrderedDict):
                 / reg_param["charge_constant_current_1"]
             )
         )
-        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(time_s)
-        )
+        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = format_step_time(time_s)
 
         # Regular cycle constant current charge part 2
         step_idx = charge_idx + 1
@@ -418,18 +430,14 @@ class Procedure(DashOrderedDict):
         steps[step_idx]["StepValue"] = reg_param["charge_cutoff_voltage"]
         assert steps[step_idx]["Ends"]["EndEntry"][0]["EndType"] == "StepTime"
         time_s = int(round(60 * reg_param["charge_constant_voltage_time"]))
-        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(time_s)
-        )
+        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = format_step_time(time_s)
 
         # Regular cycle rest at top of charge
         step_idx = charge_idx + 3
         assert steps[step_idx]["StepType"] == "Rest"
         assert steps[step_idx]["Ends"]["EndEntry"][0]["EndType"] == "StepTime"
         time_s = int(round(60 * reg_param["charge_rest_time"]))
-        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(time_s)
-        )
+        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = format_step_time(time_s)
 
         return self
 
@@ -466,9 +474,7 @@ class Procedure(DashOrderedDict):
         assert steps[step_idx]["StepType"] == "Rest"
         assert steps[step_idx]["Ends"]["EndEntry"][0]["EndType"] == "StepTime"
         time_s = int(round(60 * reg_param["discharge_rest_time"]))
-        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(time_s)
-        )
+        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = format_step_time(time_s)
 
         # Regular cycle number of times to repeat regular cycle for initial offset and main body
         step_idx = discharge_idx + 3
@@ -521,9 +527,7 @@ class Procedure(DashOrderedDict):
         )
         assert steps[step_idx]["Ends"]["EndEntry"][0]["EndType"] == "StepTime"
         time_s = int(round(60 * 12))
-        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(time_s)
-        )
+        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = format_step_time(time_s)
 
         return self
 
@@ -814,9 +818,7 @@ class Procedure(DashOrderedDict):
         assert steps[rest_idx]["StepType"] == "Rest"
         assert steps[rest_idx]["Ends"]["EndEntry"][0]["EndType"] == "StepTime"
         time_s = int(round(3 * 3600 + offset_seconds * (index % 96)))
-        steps[rest_idx]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(time_s)
-        )
+        steps[rest_idx]["Ends"]["EndEntry"][0]["Value"] = format_step_time(time_s)
 
         return self
 
@@ -851,9 +853,7 @@ class Procedure(DashOrderedDict):
                 / reg_param["charge_constant_current_1"]
             )
         )
-        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(time_s)
-        )
+        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = format_step_time(time_s)
         assert steps[step_idx]["Ends"]["EndEntry"][1]["Value"] != 4.4
         steps[step_idx]["Ends"]["EndEntry"][1]["Value"] = float(
             round(reg_param["charge_cutoff_voltage"], 3)
@@ -881,18 +881,14 @@ class Procedure(DashOrderedDict):
         steps[step_idx]["StepValue"] = reg_param["charge_cutoff_voltage"]
         assert steps[step_idx]["Ends"]["EndEntry"][0]["EndType"] == "StepTime"
         time_s = int(round(60 * reg_param["charge_constant_voltage_time"]))
-        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(time_s)
-        )
+        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = format_step_time(time_s)
 
         # Regular cycle rest at top of charge
         step_idx = charge_idx + 3
         assert steps[step_idx]["StepType"] == "Rest"
         assert steps[step_idx]["Ends"]["EndEntry"][0]["EndType"] == "StepTime"
         time_s = int(round(60 * reg_param["charge_rest_time"]))
-        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(time_s)
-        )
+        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = format_step_time(time_s)
 
         return self
 
@@ -932,9 +928,7 @@ class Procedure(DashOrderedDict):
         )
         assert steps[step_idx]["Ends"]["EndEntry"][0]["EndType"] == "StepTime"
         time_s = int(round(60 * 12))
-        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(time_s)
-        )
+        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = format_step_time(time_s)
 
         return self
 
@@ -1101,9 +1095,7 @@ class Procedure(DashOrderedDict):
         assert steps[start + 2]["StepType"] == "Rest"
         assert steps[start + 2]["Ends"]["EndEntry"][0]["EndType"] == "StepTime"
         time_s = int(round(60 * diagnostic_params["HPPC_rest_time"]))
-        steps[start + 2]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(float(time_s))
-        )
+        steps[start + 2]["Ends"]["EndEntry"][0]["Value"] = format_step_time(time_s)
 
         # Discharge step 1 for hppc cycle
         assert steps[start + 3]["StepType"] == "Dischrge"
@@ -1113,9 +1105,7 @@ class Procedure(DashOrderedDict):
         )
         assert steps[start + 3]["Ends"]["EndEntry"][0]["EndType"] == "StepTime"
         time_s = diagnostic_params["HPPC_pulse_duration_1"]
-        steps[start + 3]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(float(time_s))
-        )
+        steps[start + 3]["Ends"]["EndEntry"][0]["Value"] = format_step_time(time_s)
         assert steps[start + 3]["Ends"]["EndEntry"][1]["EndType"] == "Voltage"
         steps[start + 3]["Ends"]["EndEntry"][1]["Value"] = float(
             round(diagnostic_params["diagnostic_discharge_cutoff_voltage"], 3)
@@ -1125,9 +1115,7 @@ class Procedure(DashOrderedDict):
         assert steps[start + 4]["StepType"] == "Rest"
         assert steps[start + 4]["Ends"]["EndEntry"][0]["EndType"] == "StepTime"
         time_s = int(round(diagnostic_params["HPPC_pulse_rest_time"]))
-        steps[start + 4]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(time_s)
-        )
+        steps[start + 4]["Ends"]["EndEntry"][0]["Value"] = format_step_time(time_s)
 
         # Charge step 1 for hppc cycle
         assert steps[start + 5]["StepType"] == "Charge"
@@ -1137,9 +1125,7 @@ class Procedure(DashOrderedDict):
         )
         assert steps[start + 5]["Ends"]["EndEntry"][0]["EndType"] == "StepTime"
         time_s = diagnostic_params["HPPC_pulse_duration_2"]
-        steps[start + 5]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(float(time_s))
-        )
+        steps[start + 5]["Ends"]["EndEntry"][0]["Value"] = format_step_time(time_s)
         assert steps[start + 5]["Ends"]["EndEntry"][1]["EndType"] == "Voltage"
         steps[start + 5]["Ends"]["EndEntry"][1]["Value"] = float(
             round(diagnostic_params["HPPC_pulse_cutoff_voltage"], 3)
@@ -1163,9 +1149,7 @@ class Procedure(DashOrderedDict):
                 - 1
             )
         )
-        steps[start + 6]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(float(time_s))
-        )
+        steps[start + 6]["Ends"]["EndEntry"][0]["Value"] = format_step_time(time_s)
         assert steps[start + 6]["Ends"]["EndEntry"][1]["EndType"] == "Voltage"
         steps[start + 6]["Ends"]["EndEntry"][1]["Value"] = float(
             round(diagnostic_params["diagnostic_discharge_cutoff_voltage"], 3)
-- 
2.43.0


From 7c1698192af0e64f8c9fb945aafec9746b526bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:24 +0000
Subject: [PATCH 14/78] fix: waveform step value for files in directories with
 a dot in the path

The name was cut at the first dot of the whole path, so the step referred to
a part of the directory name instead of the waveform file.
---
 beep/protocol/maccor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beep/protocol/maccor.py b/beep/protocol/maccor.py
index 339176b..b3732d2 100644
--- a/beep/protocol/maccor.py
+++ b/beep/protocol/maccor.py
@@ -345,8 +345,8 @@ class Procedure(DashOrderedDict):
 
         assert steps[waveform_idx]["StepType"] == "FastWave"
         assert waveform_filename.split(".")[-1].lower() == "mwf"
-        local_name = waveform_filename.split(".")[0]
-        _, local_name = os.path.split(local_name)
+        _, local_name = os.path.split(waveform_filename)
+        local_name = local_name.rsplit(".", 1)[0]
         assert len(local_name) < 25, str(len(local_name))
 
         steps[waveform_idx]["StepValue"] = local_name
-- 
2.43.0


From 66b6f6b5d488bfe1cda31f60b42e31a8df0d6dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:43 +0000
Subject: [PATCH 15/78] fix: driving procedures use the requested rest time and
 cycle counts

discharge_rest_time, diagnostic_start_cycle and diagnostic_interval were
ignored by generate_procedure_drivingv1, which kept the template's values.
---
 beep/protocol/maccor.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/beep/protocol/maccor.py b/beep/protocol/maccor.py
index b3732d2..997d199 100644
--- a/beep/protocol/maccor.py
+++ b/beep/protocol/maccor.py
@@ -469,6 +469,24 @@ class Procedure(DashOrderedDict):
             round(reg_param["discharge_cutoff_voltage"], 3)
         )
 
+        self.insert_discharge_rest_regcyclev2(discharge_idx, reg_param)
+
+        return self
+
+    def insert_discharge_rest_regcyclev2(self, discharge_idx, reg_param):
+        """
+        Inserts the rest after the discharge and the number of regular cycles
+        into the procedure dictionary, for a discharge step at the given id.
+
+        Args:
+            discharge_idx (int):
+            reg_param (pandas.DataFrame):
+
+        Returns:
+            dict:
+        """
+        steps = self["MaccorTestProcedure"]["ProcSteps"]["TestStep"]
+
         # Regular cycle rest after discharge
         step_idx = discharge_idx + 1
         assert steps[step_idx]["StepType"] == "Rest"
@@ -666,12 +684,14 @@ class Procedure(DashOrderedDict):
         obj.insert_charge_regcyclev3(reg_charge_idx, reg_param)
         reg_discharge_idx = 27 + 5
         obj.insert_maccor_waveform(reg_discharge_idx, waveform_name)
+        obj.insert_discharge_rest_regcyclev2(reg_discharge_idx, reg_param)
 
         # Start of main loop of regular cycles
         reg_charge_idx = 59 + 1
         obj.insert_charge_regcyclev3(reg_charge_idx, reg_param)
         reg_discharge_idx = 59 + 5
         obj.insert_maccor_waveform(reg_discharge_idx, waveform_name)
+        obj.insert_discharge_rest_regcyclev2(reg_discharge_idx, reg_param)
 
         # Storage cycle
         reg_storage_idx = 93
-- 
2.43.0


From 278b610400a225fcb938b37e3ac5b6a71b9e5a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:39 +0000
Subject: [PATCH 16/78] fix: Biologic settings with several techniques keep
 each technique out of the metadata

---
 beep/protocol/biologic.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/beep/protocol/biologic.py b/beep/protocol/biologic.py
index 83f545f..f89bd09 100644
--- a/beep/protocol/biologic.py
+++ b/beep/protocol/biologic.py
@@ -75,9 +75,10 @@ class Settings(DashOrderedDict):
             )  # This +1 offset is based on the format seen in one file
             end = start + step_entry_length
             technique_pos.append((technique_num, start, end))
-            lines_to_parse = [
-                i for i in extra_lines if i not in list(range(start, end))
-            ]
+        lines_to_parse = [
+            i for i in extra_lines
+            if not any(start <= i < end for _, start, end in technique_pos)
+        ]
 
         section = "Metadata"
         metadata = []
-- 
2.43.0


From 1790f1ed38fa3f9e44f8bbf99ca6ac5b6bac292d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:40 +0000
Subject: [PATCH 17/78] fix: Maccor to Arbin loops whose Do is among the first
 two steps

---
 beep/protocol/maccor_to_arbin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/protocol/maccor_to_arbin.py b/beep/protocol/maccor_to_arbin.py
index 2a10fe4..33f5f38 100644
--- a/beep/protocol/maccor_to_arbin.py
+++ b/beep/protocol/maccor_to_arbin.py
@@ -125,7 +125,7 @@ class ProcedureToSchedule:
             if "Loop" in step["StepType"]:
                 loop_counter = int(re.search(r"\d+", step["StepType"]).group())
                 i = 1
-                while (indx - i) > 1:
+                while (indx - i) >= 0:
                     if self.procedure_dict_steps[abs(indx - i)][
                         "StepType"
                     ] == "Do {}".format(loop_counter):
-- 
2.43.0


From 9c33da1324eac6f595e86020d109ba1d278925bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:40 +0000
Subject: [PATCH 18/78] fix: Maccor to Arbin keeps a single end entry and the
 reports that go with it

---
 beep/protocol/maccor_to_arbin.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/beep/protocol/maccor_to_arbin.py b/beep/protocol/maccor_to_arbin.py
index 33f5f38..0452136 100644
--- a/beep/protocol/maccor_to_arbin.py
+++ b/beep/protocol/maccor_to_arbin.py
@@ -325,7 +325,7 @@ class ProcedureToSchedule:
 
         # Ends
         if step_abs["Ends"] is not None:
-            if isinstance(step_abs["Ends"]["EndEntry"], OrderedDict):
+            if isinstance(step_abs["Ends"]["EndEntry"], dict):
                 blank_step["m_uLimitNum"] = 1
                 end = step_abs["Ends"]["EndEntry"]
                 end_index = 0
@@ -362,23 +362,21 @@ class ProcedureToSchedule:
 
         # Reports
         if step_abs["Reports"] is not None:
+            limit_start = blank_step["m_uLimitNum"]
             if isinstance(step_abs["Reports"]["ReportEntry"], dict):
                 blank_step["m_uLimitNum"] = blank_step["m_uLimitNum"] + 1
                 report = step_abs["Reports"]["ReportEntry"]
-                report_index = 0
-                limit_start = len(step_abs["Ends"]["EndEntry"])
-                limit_key = "Limit{}".format(str(report_index + limit_start))
+                limit_key = "Limit{}".format(str(limit_start))
                 blank_step[limit_key] = OrderedDict(
                     self.convert_report_to_logging_limit(report)
                 )
-            elif isinstance(step_abs["Ends"]["EndEntry"], list):
+            elif isinstance(step_abs["Reports"]["ReportEntry"], list):
                 blank_step["m_uLimitNum"] = blank_step["m_uLimitNum"] + len(
                     step_abs["Reports"]["ReportEntry"]
                 )
                 for report_index, report in enumerate(
                     step_abs["Reports"]["ReportEntry"]
                 ):
-                    limit_start = len(step_abs["Ends"]["EndEntry"])
                     limit_key = "Limit{}".format(str(report_index + limit_start))
                     blank_step[limit_key] = OrderedDict(
                         self.convert_report_to_logging_limit(report)
-- 
2.43.0


From ce6039879a75f836ed28a101f2cd5042dedd5435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:40 +0000
Subject: [PATCH 19/78] fix: Maccor to Arbin conversion leaves the procedure
 unchanged

---
 beep/protocol/maccor_to_arbin.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/beep/protocol/maccor_to_arbin.py b/beep/protocol/maccor_to_arbin.py
index 0452136..595258e 100644
--- a/beep/protocol/maccor_to_arbin.py
+++ b/beep/protocol/maccor_to_arbin.py
@@ -195,6 +195,7 @@ class ProcedureToSchedule:
             os.path.join(PROTOCOL_SCHEMA_DIR, "arbin_schedule_schema.yaml")
         )
         blank_step = OrderedDict(ARBIN_SCHEMA["step_blank_body"])
+        step_abs = deepcopy(step_abs)  # the procedure itself is left as it is
 
         blank_step["m_szLabel"] = str(step_index + 1) + "-" + str(step_abs["StepNote"])
         blank_step["m_szCurrentRange"] = current_range
-- 
2.43.0


From 3d8d14da2fc7843bcef54137a6c706a0dc5533cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:40 +0000
Subject: [PATCH 20/78] fix: Maccor to Arbin keeps the voltage limit of C-rate
 discharge steps

---
 beep/protocol/maccor_to_arbin.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beep/protocol/maccor_to_arbin.py b/beep/protocol/maccor_to_arbin.py
index 595258e..96a1fa4 100644
--- a/beep/protocol/maccor_to_arbin.py
+++ b/beep/protocol/maccor_to_arbin.py
@@ -233,6 +233,8 @@ class ProcedureToSchedule:
                     blank_step["m_szCtrlValue"] = "-" + step_abs["StepValue"].replace(
                         "C", ""
                     )
+                    blank_step["m_szExtCtrlValue1"] = step_abs["Limits"]["Voltage"]
+                    blank_step["m_szExtCtrlValue2"] = "0"
             elif step_abs["Limits"] is None:
                 blank_step["m_szStepCtrlType"] = "C-Rate"
                 if step_abs["StepType"] == "Charge":
-- 
2.43.0


From af02a0cf9e351fbf52f8701fe957eaf9a53e2f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:40 +0000
Subject: [PATCH 21/78] fix: Maccor to Arbin step times of a day or more, or in
 the short form

---
 beep/protocol/maccor_to_arbin.py | 47 ++++++++++++--------------------
 1 file changed, 18 insertions(+), 29 deletions(-)

diff --git a/beep/protocol/maccor_to_arbin.py b/beep/protocol/maccor_to_arbin.py
index 96a1fa4..9f52f7a 100644
--- a/beep/protocol/maccor_to_arbin.py
+++ b/beep/protocol/maccor_to_arbin.py
@@ -15,7 +15,6 @@
 
 import os
 import re
-from datetime import datetime
 from copy import deepcopy
 from beep.protocol import PROTOCOL_SCHEMA_DIR
 from collections import OrderedDict
@@ -26,6 +25,22 @@ TEST_DIR = os.path.dirname(__file__)
 TEST_FILE_DIR = os.path.join(TEST_DIR, "test_files")
 
 
+def _step_time_to_seconds(step_time):
+    """
+    Converts a maccor step time to seconds
+
+    Args:
+        step_time (str): time as hours:minutes:seconds, each of which may be
+            empty, e.g. "26:00:00", "::30" or "::.1"
+
+    Returns:
+        float: seconds
+
+    """
+    hours, minutes, seconds = [float(part or 0) for part in step_time.split(":")]
+    return hours * 3600 + minutes * 60 + seconds
+
+
 class ProcedureToSchedule:
     """
     This class is a set of methods to convert from a maccor procedure file to
@@ -484,20 +499,7 @@ class ProcedureToSchedule:
         elif end["EndType"] == "StepTime":
             limit["Equation0_szLeft"] = "PV_CHAN_Step_Time"
             limit["Equation0_szCompareSign"] = ">"
-            if "." in end["Value"]:
-                nofrag, frag = end["Value"].split(".")
-                frag = frag[:6]  # truncate to microseconds
-                frag += (6 - len(frag)) * "0"  # add 0s
-                elapsed = datetime.strptime(
-                    nofrag.replace("::", "00:00:0"), "%H:%M:%S"
-                ).replace(microsecond=int(frag)) - datetime.strptime(
-                    "00:00:00", "%H:%M:%S"
-                )
-            else:
-                elapsed = datetime.strptime(
-                    end["Value"].replace("::", "00:00:0"), "%H:%M:%S"
-                ) - datetime.strptime("00:00:00", "%H:%M:%S")
-            limit["Equation0_szRight"] = str(elapsed.total_seconds())
+            limit["Equation0_szRight"] = str(_step_time_to_seconds(end["Value"]))
         elif end["EndType"] == "Loop Cnt":
             loop_counter = int(re.search(r"\d+", step_type).group())
             limit["Equation0_szLeft"] = "TC_Counter{}".format(loop_counter)
@@ -548,19 +550,6 @@ class ProcedureToSchedule:
         elif report["ReportType"] == "StepTime":
             limit["Equation0_szLeft"] = "DV_Time"
             limit["Equation0_szCompareSign"] = ">"
-            if "." in report["Value"]:
-                nofrag, frag = report["Value"].split(".")
-                frag = frag[:6]  # truncate to microseconds
-                frag += (6 - len(frag)) * "0"  # add 0s
-                elapsed = datetime.strptime(
-                    nofrag.replace("::", "00:00:0"), "%H:%M:%S"
-                ).replace(microsecond=int(frag)) - datetime.strptime(
-                    "00:00:00", "%H:%M:%S"
-                )
-            else:
-                elapsed = datetime.strptime(
-                    report["Value"].replace("::", "00:00:0"), "%H:%M:%S"
-                ) - datetime.strptime("00:00:00", "%H:%M:%S")
-            limit["Equation0_szRight"] = str(elapsed.total_seconds())
+            limit["Equation0_szRight"] = str(_step_time_to_seconds(report["Value"]))
 
         return limit
-- 
2.43.0


From bfb5256f737822ce563ae0da0fbd50c72f182cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:32 +0000
Subject: [PATCH 22/78] fix: Maccor to Arbin refuses function steps instead of
 dropping their control value

---
 beep/protocol/maccor_to_arbin.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/beep/protocol/maccor_to_arbin.py b/beep/protocol/maccor_to_arbin.py
index 9f52f7a..e29a7cf 100644
--- a/beep/protocol/maccor_to_arbin.py
+++ b/beep/protocol/maccor_to_arbin.py
@@ -215,6 +215,9 @@ class ProcedureToSchedule:
         blank_step["m_szLabel"] = str(step_index + 1) + "-" + str(step_abs["StepNote"])
         blank_step["m_szCurrentRange"] = current_range
 
+        if step_abs["StepMode"] is not None and step_abs["StepType"] not in ["Charge", "Dischrge"]:
+            raise ValueError("Unable to convert step of type {}".format(step_abs["StepType"]))
+
         # Current control mode with currents measured in Amps
         if step_abs["StepMode"] == "Current" and "C" not in step_abs["StepValue"]:
             if step_abs["Limits"] is not None:
-- 
2.43.0


From 514a3419b82da4c75a87b5254c95b5530e4af5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:09 +0000
Subject: [PATCH 23/78] fix: Maccor to Biologic applies all global ranges and
 sequence mappers, not only the last

---
 beep/protocol/maccor_to_biologic_mb.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/beep/protocol/maccor_to_biologic_mb.py b/beep/protocol/maccor_to_biologic_mb.py
index 2b62a3f..a5d7331 100644
--- a/beep/protocol/maccor_to_biologic_mb.py
+++ b/beep/protocol/maccor_to_biologic_mb.py
@@ -846,13 +846,13 @@ class MaccorToBiologicMb:
         for i, seq in enumerate(seqs):
             mapped_seq = seq
 
-            mapped_seq = self._apply_max_current_to_seq(technique_num, seq, i)
-            mapped_seq = self._apply_min_current_to_seq(technique_num, seq, i)
-            mapped_seq = self._apply_max_voltage_to_seq(technique_num, seq, i)
-            mapped_seq = self._apply_min_voltage_to_seq(technique_num, seq, i)
+            mapped_seq = self._apply_max_current_to_seq(technique_num, mapped_seq, i)
+            mapped_seq = self._apply_min_current_to_seq(technique_num, mapped_seq, i)
+            mapped_seq = self._apply_max_voltage_to_seq(technique_num, mapped_seq, i)
+            mapped_seq = self._apply_min_voltage_to_seq(technique_num, mapped_seq, i)
 
             for mapper in self.seq_mappers + extra_mappers:
-                mapped_seq = mapper(technique_num, seq, i)
+                mapped_seq = mapper(technique_num, mapped_seq, i)
 
             mapped_seqs.append(mapped_seq)
 
-- 
2.43.0


From 84bb57e948a231f69a943501eaa350f2986974f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:09 +0000
Subject: [PATCH 24/78] fix: Maccor to Biologic filters a single end entry by
 the global limits too

---
 beep/protocol/maccor_to_biologic_mb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/protocol/maccor_to_biologic_mb.py b/beep/protocol/maccor_to_biologic_mb.py
index a5d7331..8babb3b 100644
--- a/beep/protocol/maccor_to_biologic_mb.py
+++ b/beep/protocol/maccor_to_biologic_mb.py
@@ -685,7 +685,7 @@ class MaccorToBiologicMb:
             if end_entries is None:
                 return step
 
-            end_entries = end_entries if type(end_entries) is not list else end_entries
+            end_entries = end_entries if type(end_entries) is list else [end_entries]
             filtered_end_entries = []
             for idx, end_entry in enumerate(end_entries):
                 if pred(end_entry, idx, step_num):
-- 
2.43.0


From 7ccde99e8067c55131f20d6766c7e34ad36dfc97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:09 +0000
Subject: [PATCH 25/78] fix: Maccor to Biologic times are not truncated

---
 beep/protocol/maccor_to_biologic_mb.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/beep/protocol/maccor_to_biologic_mb.py b/beep/protocol/maccor_to_biologic_mb.py
index 8babb3b..9343432 100644
--- a/beep/protocol/maccor_to_biologic_mb.py
+++ b/beep/protocol/maccor_to_biologic_mb.py
@@ -167,18 +167,19 @@ class MaccorToBiologicMb:
         mins = 0.0 if min_str == "" else float(min_str)
         secs = 0.0 if sec_str == "" else float(sec_str)
 
-        if mins == 0.0 and secs == 0.0:
-            return "{:.3f}".format(int(hours)), "h"
+        total_time_min = hours * 60 + mins
+        total_time_sec = total_time_min * 60 + secs
 
-        if secs == 0.0:
-            total_time_min = int(hours * 60 + mins)
+        if mins == 0.0 and secs == 0.0 and hours % 1.0 == 0.0:
+            return "{:.3f}".format(hours), "h"
+
+        if secs == 0.0 and total_time_min % 1.0 == 0.0:
             return "{:.3f}".format(total_time_min), "mn"
 
-        if secs % 1.0 == 0.0:
-            total_time_sec = int(hours * 60 * 60 + mins * 60 + secs)
+        if total_time_sec % 1.0 == 0.0:
             return "{:.3f}".format(total_time_sec), "s"
 
-        total_time_ms = int(hours * 60 * 60 * 1000 + mins * 60 * 1000 + secs * 1000)
+        total_time_ms = round(total_time_sec * 1000)
 
         biologic_max_time_num = 1e10  # taken from biologic ec-lab software
         if total_time_ms < biologic_max_time_num:
-- 
2.43.0


From c627e9906a631e08ba965b23dae631a5f411c876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:09 +0000
Subject: [PATCH 26/78] fix: Maccor to Biologic cycle rules count advances at
 the start of a loop

---
 beep/protocol/maccor_to_biologic_mb.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/beep/protocol/maccor_to_biologic_mb.py b/beep/protocol/maccor_to_biologic_mb.py
index 9343432..ae27b15 100644
--- a/beep/protocol/maccor_to_biologic_mb.py
+++ b/beep/protocol/maccor_to_biologic_mb.py
@@ -1086,6 +1086,7 @@ class MaccorToBiologicMb:
             )
 
             cycle_advances_on_tech_start = adv_cycle_count
+            leading_adv_cycle_count = 0
             adv_cycle_count = 0
 
             cycle_advances_by_step_transition = {}
@@ -1117,8 +1118,12 @@ class MaccorToBiologicMb:
                     if prev_loop_open == -1:
                         raise Exception("Unclosed loop at step {}".format(step_num))
 
-                    # we need to trace the loop to find the cycle advancement
-                    if adv_cycle_count > 0:
+                    # we need to trace the loop to find the cycle advancement,
+                    # cycle advances may also precede the first measurement of the loop
+                    adv_cycle_in_loop = any(
+                        get(tp.steps[j], "StepType") == "AdvCycle" for j in range(prev_loop_open + 1, i)
+                    )
+                    if adv_cycle_in_loop:
                         if prev_measurement_step_num == -1:
                             raise Exception(
                                 (
@@ -1128,10 +1133,13 @@ class MaccorToBiologicMb:
 
                         looped_cycle_advances = adv_cycle_count
                         for j in range(prev_loop_open + 1, i + 1):
-                            looped_step_num = j + tp.step_num_offset
+                            looped_step_num = j + tp.step_num_offset + 1
                             if looped_step_num == step_num:
                                 raise Exception("Loop end step {} contains no measurement steps".format(step_num))
-                            elif looped_step_num == prev_measurement_step_num:
+                            elif (
+                                looped_step_num == prev_measurement_step_num
+                                and len(tp.seq_nums_by_step_num[looped_step_num]) == 1
+                            ):
                                 raise Exception(
                                     (
                                         "step {} is the only measurement step in a loop that advances cycle index,"
@@ -1140,8 +1148,10 @@ class MaccorToBiologicMb:
                                 )
 
                             looped_step_type = get(tp.steps[j], "StepType")
-                            if looped_step_type == "Adv Cycle":
+                            if looped_step_type == "AdvCycle":
                                 looped_cycle_advances += 1
+                            elif looped_cycle_advances == 0:
+                                break
                             else:
                                 # assumption that step is measurement because there are
                                 # no interleaved loops and only other logical step is adv cycle
@@ -1155,6 +1165,7 @@ class MaccorToBiologicMb:
                     assert get(step, "Reports.ReportEntry") is not None
 
                     if prev_measurement_step_num == -1:
+                        leading_adv_cycle_count = adv_cycle_count
                         cycle_advances_on_tech_start += adv_cycle_count
                     elif adv_cycle_count > 0:
                         transition = (prev_measurement_step_num, step_num)
@@ -1162,7 +1173,8 @@ class MaccorToBiologicMb:
                     prev_measurement_step_num = step_num
                     adv_cycle_count = 0
 
-            cycle_advances_on_tech_loop = adv_cycle_count
+            # a technique loop also passes the cycle advances preceding its first measurement
+            cycle_advances_on_tech_loop = adv_cycle_count + leading_adv_cycle_count
 
             # TODO we should also check GOTO transitions as well
             # these should be done _after_ the Next Step and Loop cases
-- 
2.43.0


From 93d713dff486d763435f9163a9ee1ddd94901ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:04 +0000
Subject: [PATCH 27/78] fix: Maccor to Biologic writes the global voltage range
 into each sequence

---
 beep/protocol/maccor_to_biologic_mb.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beep/protocol/maccor_to_biologic_mb.py b/beep/protocol/maccor_to_biologic_mb.py
index ae27b15..14e00c6 100644
--- a/beep/protocol/maccor_to_biologic_mb.py
+++ b/beep/protocol/maccor_to_biologic_mb.py
@@ -816,7 +816,7 @@ class MaccorToBiologicMb:
             return seq
 
         mapped_seq = copy.deepcopy(seq)
-        mapped_seq["E Range Max (V)"] = "{:.3f}".format(self.max_voltage_v)
+        mapped_seq["E range max (V)"] = "{:.3f}".format(self.max_voltage_v)
         return mapped_seq
 
     def _apply_min_voltage_to_seq(self, technique_num, seq, i):
@@ -824,7 +824,7 @@ class MaccorToBiologicMb:
             return seq
 
         mapped_seq = copy.deepcopy(seq)
-        mapped_seq["E Range Min (V)"] = "{:.3f}".format(self.min_voltage_v)
+        mapped_seq["E range min (V)"] = "{:.3f}".format(self.min_voltage_v)
         return mapped_seq
 
     """
-- 
2.43.0


From ce06945b38c80dd8bdd6ca9c92713699579e6c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:32 +0000
Subject: [PATCH 28/78] fix: Maccor to Biologic keeps the limit of a limited
 step without end entries

---
 beep/protocol/maccor_to_biologic_mb.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beep/protocol/maccor_to_biologic_mb.py b/beep/protocol/maccor_to_biologic_mb.py
index 14e00c6..f8ad5ac 100644
--- a/beep/protocol/maccor_to_biologic_mb.py
+++ b/beep/protocol/maccor_to_biologic_mb.py
@@ -919,7 +919,8 @@ class MaccorToBiologicMb:
 
             filtered_end_entries.append(new_end_entry)
             new_end_entries = filtered_end_entries if len(filtered_end_entries) > 1 else filtered_end_entries[0]
-            set_(step_part_1, "Ends.EndEntry", new_end_entries)
+            # a step without end entries has Ends = None, which set_ would leave as it is
+            step_part_1["Ends"] = OrderedDict(EndEntry=new_end_entries)
 
             set_(step_part_1, "StepNote", "Inserted by MaccorToBiologicConversion")
 
-- 
2.43.0


From c14af7ac7fe0c7ae0d4288fe5adb47503caa390a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:55 +0000
Subject: [PATCH 29/78] fix: Biologic to Maccor goto the start of a loop goes
 to its Do step

---
 beep/protocol/biologic_mb_to_maccor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/protocol/biologic_mb_to_maccor.py b/beep/protocol/biologic_mb_to_maccor.py
index fc0f951..028cdf0 100644
--- a/beep/protocol/biologic_mb_to_maccor.py
+++ b/beep/protocol/biologic_mb_to_maccor.py
@@ -744,7 +744,7 @@ class BiologicMbToMaccorProcedure:
                 step = cls._create_step(
                     seq,
                     step_num_by_seq_num,
-                    step_num_is_active_loop_start,
+                    seq_num_is_active_loop_start,
                     end_step_num,
                 )
                 steps.append(step)
-- 
2.43.0


From 01d0863b41626be0f783a70351aea4d18f6c2de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:55 +0000
Subject: [PATCH 30/78] fix: Biologic to Maccor refuses loops that overlap
 partly

---
 beep/protocol/biologic_mb_to_maccor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/protocol/biologic_mb_to_maccor.py b/beep/protocol/biologic_mb_to_maccor.py
index 028cdf0..968f11d 100644
--- a/beep/protocol/biologic_mb_to_maccor.py
+++ b/beep/protocol/biologic_mb_to_maccor.py
@@ -546,7 +546,7 @@ class BiologicMbToMaccorProcedure:
             loop_is_inactive = seq["ctrl_repeat"] == "0"
 
             # handle loops
-            if is_loop_seq and not loop_is_inactive and loop_to >= curr_loop_start:
+            if is_loop_seq and not loop_is_inactive and seq_num >= curr_loop_start:
                 # Biologic does not have nested loops, maccor does not allow
                 # you to loop back into already completed loops
                 # to handle this we're disallowing any overlapping loops
-- 
2.43.0


From 4ad6c424cf77b344ec1a852ffa0989bb6c76b38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:07 +0000
Subject: [PATCH 31/78] fix: discharging energy statistics compare the
 discharge steps

---
 beep/features/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beep/features/core.py b/beep/features/core.py
index 6db4add..65c5209 100644
--- a/beep/features/core.py
+++ b/beep/features/core.py
@@ -188,9 +188,9 @@ class CycleSummaryStats(BEEPFeaturizer):
 
         # # Discharging Energy features
         Ed100_1 = cycle_comp_1[
-            cycle_comp_1.step_type == "charge"].discharge_energy
+            cycle_comp_1.step_type == "discharge"].discharge_energy
         Ed10_1 = cycle_comp_0[
-            cycle_comp_0.step_type == "charge"].discharge_energy
+            cycle_comp_0.step_type == "discharge"].discharge_energy
         EdDiff = Ed100_1.values - Ed10_1.values
         EdDiff = EdDiff[~np.isnan(EdDiff)]
 
-- 
2.43.0


From ea7fd2bd897f801dc03334ec51c13f773c83b8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:07 +0000
Subject: [PATCH 32/78] fix: summary statistics are the requested ones, in the
 requested order

---
 beep/features/core.py | 56 ++++++++++++++++++++-----------------------
 1 file changed, 26 insertions(+), 30 deletions(-)

diff --git a/beep/features/core.py b/beep/features/core.py
index 65c5209..8e418f4 100644
--- a/beep/features/core.py
+++ b/beep/features/core.py
@@ -151,7 +151,8 @@ class CycleSummaryStats(BEEPFeaturizer):
 
         # TODO: extend this dataframe and uncomment energy features when
         #   structuring is refactored
-        X = pd.DataFrame(np.zeros((1, 28)))
+        n_stats = len(self.hyperparameters["statistics"])
+        X = pd.DataFrame(np.zeros((1, 4 * n_stats)))
 
         reg_cycle_comp_num = self.hyperparameters.get("cycle_comp_num")
         cycle_comp_1 = self.datapath.structured_data[
@@ -167,7 +168,7 @@ class CycleSummaryStats(BEEPFeaturizer):
         QcDiff = Qc100_1.values - Qc10_1.values
         QcDiff = QcDiff[~np.isnan(QcDiff)]
 
-        X.loc[0, 0:6] = self.get_summary_statistics(QcDiff)
+        X.iloc[0, 0:n_stats] = self.get_summary_statistics(QcDiff)
 
         Qd100_1 = cycle_comp_1[
             cycle_comp_1.step_type == "discharge"].discharge_capacity
@@ -176,7 +177,7 @@ class CycleSummaryStats(BEEPFeaturizer):
         QdDiff = Qd100_1.values - Qd10_1.values
         QdDiff = QdDiff[~np.isnan(QdDiff)]
 
-        X.loc[0, 7:13] = self.get_summary_statistics(QdDiff)
+        X.iloc[0, n_stats:2 * n_stats] = self.get_summary_statistics(QdDiff)
 
         # # Charging Energy features
         Ec100_1 = cycle_comp_1[cycle_comp_1.step_type == "charge"].charge_energy
@@ -184,7 +185,7 @@ class CycleSummaryStats(BEEPFeaturizer):
         EcDiff = Ec100_1.values - Ec10_1.values
         EcDiff = EcDiff[~np.isnan(EcDiff)]
 
-        X.loc[0, 14:20] = self.get_summary_statistics(EcDiff)
+        X.iloc[0, 2 * n_stats:3 * n_stats] = self.get_summary_statistics(EcDiff)
 
         # # Discharging Energy features
         Ed100_1 = cycle_comp_1[
@@ -194,7 +195,7 @@ class CycleSummaryStats(BEEPFeaturizer):
         EdDiff = Ed100_1.values - Ed10_1.values
         EdDiff = EdDiff[~np.isnan(EdDiff)]
 
-        X.loc[0, 21:27] = self.get_summary_statistics(EdDiff)
+        X.iloc[0, 3 * n_stats:4 * n_stats] = self.get_summary_statistics(EdDiff)
 
         quantities = [
             "charging_capacity",
@@ -233,23 +234,17 @@ class CycleSummaryStats(BEEPFeaturizer):
             raise ValueError(
                 f"Unsupported statistics in {stats_names}: supported statistics are {supported_stats}")
 
-        stats = []
-
-        if "var" in stats_names:
-            stats.append(np.log10(np.absolute(np.var(array))))
-        if "min" in stats_names:
-            stats.append(np.log10(np.absolute(min(array))))
-        if "mean" in stats_names:
-            stats.append(np.log10(np.absolute(np.mean(array))))
-        if "skew" in stats_names:
-            stats.append(np.log10(np.absolute(skew(array))))
-        if "kurtosis" in stats_names:
-            stats.append(np.log10(
-                np.absolute(kurtosis(array, fisher=False, bias=False))))
-        if "abs" in stats_names:
-            stats.append(np.log10(np.sum(np.absolute(array))))
-        if "square" in stats_names:
-            stats.append(np.log10(np.sum(np.square(array))))
+        functions = {
+            "var": lambda x: np.log10(np.absolute(np.var(x))),
+            "min": lambda x: np.log10(np.absolute(min(x))),
+            "mean": lambda x: np.log10(np.absolute(np.mean(x))),
+            "skew": lambda x: np.log10(np.absolute(skew(x))),
+            "kurtosis": lambda x: np.log10(
+                np.absolute(kurtosis(x, fisher=False, bias=False))),
+            "abs": lambda x: np.log10(np.sum(np.absolute(x))),
+            "square": lambda x: np.log10(np.sum(np.square(x))),
+        }
+        stats = [functions[s](array) for s in stats_names]
 
         return np.asarray(stats)
 
@@ -367,7 +362,8 @@ class DiagnosticSummaryStats(CycleSummaryStats):
 
         diag_intrp = self.datapath.diagnostic_data
 
-        X = pd.DataFrame(np.zeros((1, 54)))
+        n_stats = len(self.hyperparameters["statistics"])
+        X = pd.DataFrame(np.zeros((1, 6 * n_stats + 12)))
 
         # Calculate the cycles and the steps for the selected diagnostics
         cycles = diag_intrp.cycle_index[diag_intrp.cycle_type ==
@@ -414,7 +410,7 @@ class DiagnosticSummaryStats(CycleSummaryStats):
         QcDiff = Qc_1.values - Qc_0.values
         QcDiff = QcDiff[~np.isnan(QcDiff)]
 
-        X.loc[0, 0:6] = self.get_summary_statistics(QcDiff)
+        X.iloc[0, 0:n_stats] = self.get_summary_statistics(QcDiff)
 
         # Discharging Capacity features
         Qd_1 = diag_intrp.discharge_capacity[mask_pos_1_discharge]
@@ -422,7 +418,7 @@ class DiagnosticSummaryStats(CycleSummaryStats):
         QdDiff = Qd_1.values - Qd_0.values
         QdDiff = QdDiff[~np.isnan(QdDiff)]
 
-        X.loc[0, 7:13] = self.get_summary_statistics(QdDiff)
+        X.iloc[0, n_stats:2 * n_stats] = self.get_summary_statistics(QdDiff)
 
         # Charging Energy features
         Ec_1 = diag_intrp.charge_energy[mask_pos_1_charge]
@@ -430,7 +426,7 @@ class DiagnosticSummaryStats(CycleSummaryStats):
         EcDiff = Ec_1.values - Ec_0.values
         EcDiff = EcDiff[~np.isnan(EcDiff)]
 
-        X.loc[0, 14:20] = self.get_summary_statistics(EcDiff)
+        X.iloc[0, 2 * n_stats:3 * n_stats] = self.get_summary_statistics(EcDiff)
 
         # Discharging Energy features
         Ed_1 = diag_intrp.discharge_energy[mask_pos_1_discharge]
@@ -438,7 +434,7 @@ class DiagnosticSummaryStats(CycleSummaryStats):
         EdDiff = Ed_1.values - Ed_0.values
         EdDiff = EdDiff[~np.isnan(EdDiff)]
 
-        X.loc[0, 21:27] = self.get_summary_statistics(EdDiff)
+        X.iloc[0, 3 * n_stats:4 * n_stats] = self.get_summary_statistics(EdDiff)
 
         # Charging dQdV features
         dQdVc_1 = diag_intrp.charge_dQdV[mask_pos_1_charge]
@@ -446,7 +442,7 @@ class DiagnosticSummaryStats(CycleSummaryStats):
         dQdVcDiff = dQdVc_1.values - dQdVc_0.values
         dQdVcDiff = dQdVcDiff[~np.isnan(dQdVcDiff)]
 
-        X.loc[0, 28:34] = self.get_summary_statistics(dQdVcDiff)
+        X.iloc[0, 4 * n_stats:5 * n_stats] = self.get_summary_statistics(dQdVcDiff)
 
         # Discharging Capacity features
         dQdVd_1 = diag_intrp.discharge_dQdV[mask_pos_1_discharge]
@@ -454,9 +450,9 @@ class DiagnosticSummaryStats(CycleSummaryStats):
         dQdVdDiff = dQdVd_1.values - dQdVd_0.values
         dQdVdDiff = dQdVdDiff[~np.isnan(dQdVdDiff)]
 
-        X.loc[0, 35:41] = self.get_summary_statistics(dQdVdDiff)
+        X.iloc[0, 5 * n_stats:6 * n_stats] = self.get_summary_statistics(dQdVdDiff)
 
-        X.loc[0, 42:53], names = self.get_summary_diff(
+        X.iloc[0, 6 * n_stats:], names = self.get_summary_diff(
             self.hyperparameters["diag_pos_list"]
         )
 
-- 
2.43.0


From db02e4a9525e82f16d18e6958221ff263a4ee8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:07 +0000
Subject: [PATCH 33/78] fix: nominal capacity uses the configured number of
 cycles

---
 beep/features/core.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/beep/features/core.py b/beep/features/core.py
index 8e418f4..57ab3b4 100644
--- a/beep/features/core.py
+++ b/beep/features/core.py
@@ -534,10 +534,6 @@ class DeltaQFastCharge(BEEPFeaturizer):
         i_mid = self.hyperparameters["mid_pred_cycle"] - 1
 
         summary = self.datapath.structured_summary
-        self.hyperparameters[
-            "n_nominal_cycles"
-        ] = 40  # For nominal capacity, use median discharge capacity of first n cycles
-
         if "step_type" in self.datapath.structured_data.columns:
             interpolated_df = self.datapath.structured_data[
                 self.datapath.structured_data.step_type == "discharge"
@@ -646,7 +642,7 @@ class DeltaQFastCharge(BEEPFeaturizer):
         )
         labels.append("internal_resistance_difference_cycles_2:100")
 
-        # Nominal capacity
+        # For nominal capacity, use median discharge capacity of first n cycles
         end = self.hyperparameters["n_nominal_cycles"]
         X[20] = np.median(summary.discharge_capacity.iloc[0: end])
         labels.append("nominal_capacity_by_median")
-- 
2.43.0


From 5b2b2ae79b69db40c53aceb4262543cf682e7d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:07 +0000
Subject: [PATCH 34/78] fix: delta Q compares with the configured initial cycle

---
 beep/features/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beep/features/core.py b/beep/features/core.py
index 57ab3b4..301841e 100644
--- a/beep/features/core.py
+++ b/beep/features/core.py
@@ -532,6 +532,7 @@ class DeltaQFastCharge(BEEPFeaturizer):
         i_final = self.hyperparameters[
                       "final_pred_cycle"] - 1  # python indexing
         i_mid = self.hyperparameters["mid_pred_cycle"] - 1
+        i_init = self.hyperparameters["init_pred_cycle"] - 1
 
         summary = self.datapath.structured_summary
         if "step_type" in self.datapath.structured_data.columns:
@@ -571,7 +572,7 @@ class DeltaQFastCharge(BEEPFeaturizer):
             interpolated_df.cycle_index == i_final
             ]
         Qd_10 = interpolated_df.discharge_capacity[
-            interpolated_df.cycle_index == 9]
+            interpolated_df.cycle_index == i_init]
 
         Qd_diff = Qd_final.values - Qd_10.values
 
-- 
2.43.0


From dc63db79dd8da5f4b79d7042d8088296f8aa4cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:07 +0000
Subject: [PATCH 35/78] fix: delta Q features are missing when there is no
 delta Q

---
 beep/features/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/features/core.py b/beep/features/core.py
index 301841e..074f739 100644
--- a/beep/features/core.py
+++ b/beep/features/core.py
@@ -586,7 +586,7 @@ class DeltaQFastCharge(BEEPFeaturizer):
             X[9] = np.log10(np.abs(kurtosis(Qd_diff)))  # Kurtosis
             X[10] = np.log10(np.abs(Qd_diff[0]))  # First difference
         else:
-            X[5:11] = np.nan
+            X[list(range(5, 11))] = np.nan
 
         labels.append("abs_min_discharge_capacity_difference_cycles_2:100")
         labels.append("abs_mean_discharge_capacity_difference_cycles_2:100")
-- 
2.43.0


From 8526c58962bc2678572f293313a365a1383103fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:24 +0000
Subject: [PATCH 36/78] fix: featurizing leaves the diagnostic data of the
 datapath as it was

---
 beep/features/core.py | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/beep/features/core.py b/beep/features/core.py
index 074f739..db124af 100644
--- a/beep/features/core.py
+++ b/beep/features/core.py
@@ -1,3 +1,5 @@
+import copy
+
 import numpy as np
 import pandas as pd
 from scipy.stats import skew, kurtosis
@@ -41,25 +43,27 @@ class HPPCResistanceVoltageFeatures(BEEPFeaturizer):
 
     def create_features(self):
         # Filter out low cycle numbers at the end of the test, corresponding to the "final" diagnostic
-        self.datapath.diagnostic_data = self.datapath.diagnostic_data[
-            ~((self.datapath.diagnostic_data.test_time > self.hyperparameters[
+        # on a copy, so that the datapath keeps all of its data
+        datapath = copy.copy(self.datapath)
+        datapath.diagnostic_data = datapath.diagnostic_data[
+            ~((datapath.diagnostic_data.test_time > self.hyperparameters[
                 'test_time_filter_sec']) &
-              (self.datapath.diagnostic_data.cycle_index < self.hyperparameters[
+              (datapath.diagnostic_data.cycle_index < self.hyperparameters[
                   'cycle_index_filter']))
         ]
-        self.datapath.diagnostic_data = self.datapath.diagnostic_data.groupby(
+        datapath.diagnostic_data = datapath.diagnostic_data.groupby(
             ["cycle_index", "step_index", "step_index_counter"]
         ).filter(lambda x: ~x["test_time"].isnull().all())
 
         # diffusion features
         diffusion_features = featurizer_helpers.get_diffusion_features(
-            self.datapath, self.hyperparameters["diag_pos"]
+            datapath, self.hyperparameters["diag_pos"]
         )
 
         hppc_r = pd.DataFrame()
         # the 9 by 6 dataframe
         df_dr = featurizer_helpers.get_dr_df(
-            self.datapath, self.hyperparameters["diag_pos"]
+            datapath, self.hyperparameters["diag_pos"]
         )
         # transform this dataframe to be 1 by 54
         columns = df_dr.columns
@@ -70,14 +74,14 @@ class HPPCResistanceVoltageFeatures(BEEPFeaturizer):
 
         # the variance of ocv features
         hppc_ocv = featurizer_helpers.get_hppc_ocv(
-            self.datapath,
+            datapath,
             self.hyperparameters["diag_pos"],
             parameters_path=self.hyperparameters["parameters_path"]
         )
 
         # the v_diff features
         v_diff = featurizer_helpers.get_v_diff(
-            self.datapath,
+            datapath,
             self.hyperparameters["diag_pos"],
             self.hyperparameters["soc_window"],
             self.hyperparameters["parameters_path"]
@@ -350,17 +354,19 @@ class DiagnosticSummaryStats(CycleSummaryStats):
         """
         # Filter out "final" diagnostic cycles that have been appended to the end of the file with the wrong
         # cycle number(test time is monotonic)
-        self.datapath.diagnostic_data = self.datapath.diagnostic_data[
-            ~((self.datapath.diagnostic_data.test_time > self.hyperparameters[
+        # on a copy, so that the datapath keeps all of its data
+        datapath = copy.copy(self.datapath)
+        datapath.diagnostic_data = datapath.diagnostic_data[
+            ~((datapath.diagnostic_data.test_time > self.hyperparameters[
                 'test_time_filter_sec']) &
-              (self.datapath.diagnostic_data.cycle_index < self.hyperparameters[
+              (datapath.diagnostic_data.cycle_index < self.hyperparameters[
                   'cycle_index_filter']))
         ]
-        self.datapath.diagnostic_data = self.datapath.diagnostic_data.groupby(
+        datapath.diagnostic_data = datapath.diagnostic_data.groupby(
             ["cycle_index", "step_index", "step_index_counter"]
         ).filter(lambda x: ~x["test_time"].isnull().all())
 
-        diag_intrp = self.datapath.diagnostic_data
+        diag_intrp = datapath.diagnostic_data
 
         n_stats = len(self.hyperparameters["statistics"])
         X = pd.DataFrame(np.zeros((1, 6 * n_stats + 12)))
@@ -370,13 +376,13 @@ class DiagnosticSummaryStats(CycleSummaryStats):
                                         self.hyperparameters[
                                             "diagnostic_cycle_type"]].unique()
         step_dict_0 = featurizer_helpers.get_step_index(
-            self.datapath,
+            datapath,
             cycle_type=self.hyperparameters["diagnostic_cycle_type"],
             diag_pos=self.hyperparameters["diag_pos_list"][0],
             parameters_path=self.hyperparameters["parameters_path"]
         )
         step_dict_1 = featurizer_helpers.get_step_index(
-            self.datapath,
+            datapath,
             cycle_type=self.hyperparameters["diagnostic_cycle_type"],
             diag_pos=self.hyperparameters["diag_pos_list"][1],
             parameters_path=self.hyperparameters["parameters_path"]
-- 
2.43.0


From 1b0ada3e2b95987720c05c4280f4a5ad6a0ab9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:20 +0000
Subject: [PATCH 37/78] fix: threshold targets use the chosen cycle type and
 metric

---
 beep/features/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beep/features/core.py b/beep/features/core.py
index db124af..651666c 100644
--- a/beep/features/core.py
+++ b/beep/features/core.py
@@ -825,6 +825,8 @@ class DiagnosticProperties(BEEPFeaturizer):
         filter_kinks = self.hyperparameters["filter_kinks"]
         extrapolate_threshold = self.hyperparameters["extrapolate_threshold"]
 
+        df = df[(df['cycle_type'] == cycle_type) & (df['metric'] == metric)]
+
         if filter_kinks:
             if np.any(df['fractional_metric'].diff().diff() < filter_kinks):
                 last_good_cycle = df[
-- 
2.43.0


From 932d5bf2c53b12f2bb13b2ce2a8a026330df09b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:20 +0000
Subject: [PATCH 38/78] fix: a threshold not crossed is an error without
 extrapolation

---
 beep/features/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/features/core.py b/beep/features/core.py
index 651666c..4ed138e 100644
--- a/beep/features/core.py
+++ b/beep/features/core.py
@@ -841,7 +841,7 @@ class DiagnosticProperties(BEEPFeaturizer):
         # Logic around how to deal with cells that have not crossed threshold
         if df['fractional_metric'].min() > threshold and \
                 not extrapolate_threshold:
-            BEEPFeaturizationError(
+            raise BEEPFeaturizationError(
                 "DiagnosticProperties data has not crossed threshold "
                 "and extrapolation inaccurate"
             )
-- 
2.43.0


From e5e74669f0b4d76201afff058c1f2046bd874780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:20 +0000
Subject: [PATCH 39/78] fix: threshold targets work for any number of
 interpolation axes

---
 beep/features/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/features/core.py b/beep/features/core.py
index 4ed138e..7c7ae68 100644
--- a/beep/features/core.py
+++ b/beep/features/core.py
@@ -888,7 +888,7 @@ class DiagnosticProperties(BEEPFeaturizer):
             crossing_array = abs(f_axis[indx](x_linspace) - threshold)
             x_to_threshold.append(x_linspace[np.argmin(crossing_array)])
 
-        if ~(x_to_threshold[0] > 0) or ~(x_to_threshold[1] > 0):
+        if not all(x > 0 for x in x_to_threshold):
             raise BEEPFeaturizationError(
                 "DiagnosticProperties data does not have a positive value "
                 "to threshold"
-- 
2.43.0


From 2ab1806f91d2b2a303b29070b750841355d0c547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:20 +0000
Subject: [PATCH 40/78] fix: a cell with an undetermined exclusion criterion is
 not included

---
 beep/features/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/features/core.py b/beep/features/core.py
index 7c7ae68..a84fb5e 100644
--- a/beep/features/core.py
+++ b/beep/features/core.py
@@ -1072,7 +1072,7 @@ class ExclusionCriteria(BEEPFeaturizer):
 
         # Set overall "to_include" column
         exclusion_criteria_columns = [c for c in features.columns if c[:3] == "is_"]
-        features["to_include"] = features.apply(lambda row: all([row[c] for c in exclusion_criteria_columns]), axis=1)
+        features["to_include"] = features.apply(lambda row: all([pd.notna(row[c]) and row[c] for c in exclusion_criteria_columns]), axis=1)
         self.features = features
 
 
-- 
2.43.0


From 6149af9541033a45505b46aaa989fe6ec5f89359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:22 +0000
Subject: [PATCH 41/78] fix: exclusion criteria take one fraction when the last
 one is above one

---
 beep/features/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/features/core.py b/beep/features/core.py
index a84fb5e..a90b10f 100644
--- a/beep/features/core.py
+++ b/beep/features/core.py
@@ -992,7 +992,7 @@ class ExclusionCriteria(BEEPFeaturizer):
 
         if fractional_capacity_at_EOT.iloc[0] > 1:
             fractional_capacity_at_EOT = diag_fractional_quantity_remaining["fractional_metric"].fillna(
-                method='ffill').iloc[-2:]
+                method='ffill').iloc[-2:].iloc[:1]
 
         threshold = self.hyperparameters["EOL_conditions"]["threshold"]
         fractional_capacity_at_EOT_criteria = fractional_capacity_at_EOT.map(lambda x: x < threshold)
-- 
2.43.0


From f035e1a986e8d2955224dc71605e8233f13fe029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:43 +0000
Subject: [PATCH 42/78] fix: HPPC voltage differences use the steps of the
 chosen diagnostic

---
 beep/features/featurizer_helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beep/features/featurizer_helpers.py b/beep/features/featurizer_helpers.py
index 257d1c6..19a5043 100644
--- a/beep/features/featurizer_helpers.py
+++ b/beep/features/featurizer_helpers.py
@@ -254,7 +254,8 @@ def get_v_diff(processed_cycler_run, diag_pos, soc_window, parameters_path=PROTO
     hppc_data_1 = hppc_data_1.loc[hppc_data_1.discharge_capacity < 8]
 
     step_ind_1 = get_step_index(processed_cycler_run, cycle_type="hppc", diag_pos=0, parameters_path=parameters_path)
-    step_ind_2 = get_step_index(processed_cycler_run, cycle_type="hppc", diag_pos=1, parameters_path=parameters_path)
+    step_ind_2 = get_step_index(processed_cycler_run, cycle_type="hppc", diag_pos=diag_pos,
+                                parameters_path=parameters_path)
 
     hppc_data_2_d = hppc_data_2.loc[hppc_data_2.step_index == step_ind_2["hppc_discharge_to_next_soc"]]
     hppc_data_1_d = hppc_data_1.loc[hppc_data_1.step_index == step_ind_1["hppc_discharge_to_next_soc"]]
-- 
2.43.0


From 3baa0ee2033832435433dd43a3d61b7484b00c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:43 +0000
Subject: [PATCH 43/78] fix: HPPC diffusion features use the configured
 parameters directory

---
 beep/features/core.py               | 4 +++-
 beep/features/featurizer_helpers.py | 6 +++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/beep/features/core.py b/beep/features/core.py
index a90b10f..77c5970 100644
--- a/beep/features/core.py
+++ b/beep/features/core.py
@@ -57,7 +57,9 @@ class HPPCResistanceVoltageFeatures(BEEPFeaturizer):
 
         # diffusion features
         diffusion_features = featurizer_helpers.get_diffusion_features(
-            datapath, self.hyperparameters["diag_pos"]
+            datapath,
+            self.hyperparameters["diag_pos"],
+            self.hyperparameters["parameters_path"]
         )
 
         hppc_r = pd.DataFrame()
diff --git a/beep/features/featurizer_helpers.py b/beep/features/featurizer_helpers.py
index 19a5043..3826e52 100644
--- a/beep/features/featurizer_helpers.py
+++ b/beep/features/featurizer_helpers.py
@@ -392,7 +392,7 @@ def get_diffusion_coeff(processed_cycler_run, diag_pos, parameters_path=PROTOCOL
     return result
 
 
-def get_diffusion_features(processed_cycler_run, diag_pos):
+def get_diffusion_features(processed_cycler_run, diag_pos, parameters_path=PROTOCOL_PARAMETERS_DIR):
     """
     This method calculates changes in diffusion coefficient between a specified hppc cycle and the first one at
     different state of charge.
@@ -406,8 +406,8 @@ def get_diffusion_features(processed_cycler_run, diag_pos):
         a dataframe contains 8 normalized slope changes.
 
     """
-    df_0 = get_diffusion_coeff(processed_cycler_run, 0)
-    df = get_diffusion_coeff(processed_cycler_run, diag_pos)
+    df_0 = get_diffusion_coeff(processed_cycler_run, 0, parameters_path)
+    df = get_diffusion_coeff(processed_cycler_run, diag_pos, parameters_path)
     result = (df - df_0)/(df_0)
     return result
 
-- 
2.43.0


From 27943e301ca58d0e4ceee79c8873f0d051e29872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:33 +0000
Subject: [PATCH 44/78] fix: data splitter keeps its imputation and exclusions
 through a file

---
 beep/prediction/beep_data_splitter.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/beep/prediction/beep_data_splitter.py b/beep/prediction/beep_data_splitter.py
index 8d475da..ccfadbd 100644
--- a/beep/prediction/beep_data_splitter.py
+++ b/beep/prediction/beep_data_splitter.py
@@ -223,6 +223,8 @@ class BEEPDataSplitter(MSONable):
         self.n_splits = n_splits
         self.random_state = random_state
         self.split_columns = split_columns
+        self.exclusion_columns = exclusion_columns
+        self.drop_split_threshold = drop_split_threshold
         self.datasets = None
 
     def split(self):
@@ -331,10 +333,13 @@ class BEEPDataSplitter(MSONable):
             "train_feature_drop_nan_thresh": self.train_feature_drop_nan_thresh,
             "train_sample_drop_nan_thresh": self.train_sample_drop_nan_thresh,
             "drop_nan_training_targets": self.drop_nan_training_targets,
+            "impute_strategy": self.impute_strategy,
             "homogenize_features": self.homogenize_features,
             "n_splits": self.n_splits,
             "random_state": self.random_state,
             "split_columns": self.split_columns,
+            "exclusion_columns": self.exclusion_columns,
+            "drop_split_threshold": self.drop_split_threshold,
             "datasets": [d.as_dict() for d in self.datasets]
         }
 
@@ -349,10 +354,13 @@ class BEEPDataSplitter(MSONable):
             train_feature_drop_nan_thresh=d["train_feature_drop_nan_thresh"],
             train_sample_drop_nan_thresh=d["train_sample_drop_nan_thresh"],
             drop_nan_training_targets=d["drop_nan_training_targets"],
+            impute_strategy=d.get("impute_strategy", "median"),
             homogenize_features=d["homogenize_features"],
             n_splits=d["n_splits"],
             random_state=d["random_state"],
-            split_columns=d["split_columns"]
+            split_columns=d["split_columns"],
+            exclusion_columns=d.get("exclusion_columns"),
+            drop_split_threshold=d.get("drop_split_threshold", 0.5)
         )
 
         bds.datasets = [BEEPDataset.from_dict(dataset) for dataset in d["datasets"]]
-- 
2.43.0


From d571a951322c96a95b58350560b3d3fe3ce721a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:12 +0000
Subject: [PATCH 45/78] fix: samples without an exclusion criterion are left
 out by the data splitter

---
 beep/prediction/beep_data_splitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/prediction/beep_data_splitter.py b/beep/prediction/beep_data_splitter.py
index ccfadbd..a4ecb6a 100644
--- a/beep/prediction/beep_data_splitter.py
+++ b/beep/prediction/beep_data_splitter.py
@@ -142,7 +142,7 @@ class BEEPDataSplitter(MSONable):
         X = X.dropna(axis=0, thresh=train_sample_drop_nan_thresh * X.shape[1])
 
         if exclusion_columns is not None:
-            X[exclusion_columns] = X[exclusion_columns].fillna(value=False, axis='columns')
+            X[exclusion_columns] = X[exclusion_columns].fillna(value=False, axis='columns').astype(bool)
 
         X = self._impute_df(X, method=impute_strategy)
 
-- 
2.43.0


From f7b84903140a93bf3cd329f586c4ba5252fa9def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:35 +0000
Subject: [PATCH 46/78] fix: linear model drops features by the feature
 threshold

---
 beep/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/model.py b/beep/model.py
index 2024cf5..b965512 100644
--- a/beep/model.py
+++ b/beep/model.py
@@ -135,7 +135,7 @@ class BEEPLinearModelExperiment(MSONable):
             )
 
         # Form the clean feature matrix
-        X = X.dropna(axis=1, thresh=train_sample_drop_nan_thresh * X.shape[0])
+        X = X.dropna(axis=1, thresh=train_feature_drop_nan_thresh * X.shape[0])
         X = X.dropna(axis=0, thresh=train_sample_drop_nan_thresh * X.shape[1])
         X = self._impute_df(X, method=impute_strategy)
         self.impute_strategy = impute_strategy
-- 
2.43.0


From ac790e74deadd5ab7ce00522a5bd0ed6b69899bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:35 +0000
Subject: [PATCH 47/78] fix: linear model prediction leaves the matrix it is
 given as it was

---
 beep/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/beep/model.py b/beep/model.py
index b965512..bd75efc 100644
--- a/beep/model.py
+++ b/beep/model.py
@@ -446,6 +446,7 @@ class BEEPLinearModelExperiment(MSONable):
         """
         d = BEEPFeatureMatrix.OP_DELIMITER
         cols_stripped = [d.join(c.split(d)[:-1]) for c in X.columns]
+        X = X.copy()
         X.columns = cols_stripped
         return X
 
-- 
2.43.0


From fc4a4a1aaa13c53193d1c88378a14d2076845579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:35 +0000
Subject: [PATCH 48/78] fix: linear model drops prediction samples by the
 features it was trained on

---
 beep/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/model.py b/beep/model.py
index bd75efc..2c17965 100644
--- a/beep/model.py
+++ b/beep/model.py
@@ -353,7 +353,7 @@ class BEEPLinearModelExperiment(MSONable):
         X_old = copy.deepcopy(X)
         X = X[self.feature_labels].dropna(
             axis=0,
-            thresh=self.predict_sample_nan_thresh * X.shape[1]
+            thresh=self.predict_sample_nan_thresh * len(self.feature_labels)
         )
         X = self._impute_df(X, self.impute_strategy)
 
-- 
2.43.0


From d30bf62e6d80e522faffe7a5aaf97b40a060e71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:35 +0000
Subject: [PATCH 49/78] fix: linear model lists only the samples it dropped

---
 beep/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/model.py b/beep/model.py
index 2c17965..c4d3791 100644
--- a/beep/model.py
+++ b/beep/model.py
@@ -359,7 +359,7 @@ class BEEPLinearModelExperiment(MSONable):
 
         dropped = []
         if X_old.shape[0] != X.shape[0]:
-            dropped = [s for s in X_old.index if s not in X]
+            dropped = [s for s in X_old.index if s not in X.index]
             logger.warning(
                 f"{len(dropped)} samples dropped due to nan sample threshold "
                 f"of {self.predict_sample_nan_thresh}. List of those dropped "
-- 
2.43.0


From ab0780b4247adabffe1584db492c66db55e58806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:41 +0000
Subject: [PATCH 50/78] fix: linear model keeps the scaling it was trained with
 through a file

---
 beep/model.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/beep/model.py b/beep/model.py
index c4d3791..ae3b155 100644
--- a/beep/model.py
+++ b/beep/model.py
@@ -512,6 +512,12 @@ class BEEPLinearModelExperiment(MSONable):
                 "intercept_": self.model.intercept_.tolist(),
                 "optimal_hyperparameters": self.optimal_hyperparameters,
             },
+            # The scaling the model was trained with
+            "scaler_sklearn": {
+                "mean_": self.scaler.mean_.tolist(),
+                "scale_": self.scaler.scale_.tolist(),
+                "var_": self.scaler.var_.tolist(),
+            },
 
         }
 
@@ -559,6 +565,8 @@ class BEEPLinearModelExperiment(MSONable):
         model.coef_ = np.asarray(model_params["coef_"])
         model.intercept_ = np.asarray(model_params["intercept_"])
         o.model = model
+        for attr, values in d.get("scaler_sklearn", {}).items():
+            setattr(o.scaler, attr, np.asarray(values))
         o.optimal_hyperparameters = model_params["optimal_hyperparameters"]
         return o
 
-- 
2.43.0


From 2b7e23f1c8762d4b2eac3f847bf9b0f17563981c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:22 +0000
Subject: [PATCH 51/78] fix: interrupted or misdirected commands end with a
 nonzero exit code

---
 beep/cmd.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/beep/cmd.py b/beep/cmd.py
index d656905..bcadd57 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -593,7 +593,7 @@ def structure(
 
         except KeyboardInterrupt:
             logging.critical("Keyboard interrupt caught - exiting...")
-            click.Context.exit(1)
+            ctx.exit(1)
 
         except BaseException:
             tbinfo = sys.exc_info()
@@ -808,7 +808,7 @@ def featurize(
                     f"'{fclass_name}' not recognized as BEEP native featurizer "
                     f"or importable module."
                 )
-                click.Context.exit(1)
+                ctx.exit(1)
 
             modname, _, clsname = fclass_name.rpartition('.')
             mod = importlib.import_module(modname)
@@ -816,7 +816,7 @@ def featurize(
 
             if not issubclass(cls, BEEPFeaturizer):
                 logging.critical(f"Class {cls.__name__} is not a subclass of BEEPFeaturizer.")
-                click.Context.exit(1)
+                ctx.exit(1)
             fclass = cls
 
         # check parameter arguments and update with full hyperparameter specifications
@@ -899,7 +899,7 @@ def featurize(
 
             except KeyboardInterrupt:
                 logger.critical("Keyboard interrupt caught - exiting...")
-                click.Context.exit(1)
+                ctx.exit(1)
 
             except BaseException:
                 tbinfo = sys.exc_info()
@@ -1320,7 +1320,7 @@ def train(
             test_errors = None
     except KeyboardInterrupt:
         logging.critical("Keyboard interrupt caught - exiting...")
-        click.Context.exit(1)
+        ctx.exit(1)
     except BaseException:
         tbinfo = sys.exc_info()
         tbfmt = traceback.format_exception(*tbinfo)
@@ -1483,7 +1483,7 @@ def predict(
 
     except KeyboardInterrupt:
         logging.critical("Keyboard interrupt caught - exiting...")
-        click.Context.exit(1)
+        ctx.exit(1)
     except BaseException:
         tbinfo = sys.exc_info()
         tbfmt = traceback.format_exception(*tbinfo)
-- 
2.43.0


From 88e37802c61c2d7f19b9fd355764de00c82ef09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:42 +0000
Subject: [PATCH 52/78] fix: auto_load picks the reader by the file's name, not
 its directories

---
 beep/structure/cli.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/beep/structure/cli.py b/beep/structure/cli.py
index df2e6b7..9f3a433 100644
--- a/beep/structure/cli.py
+++ b/beep/structure/cli.py
@@ -15,6 +15,7 @@
 
 """
 
+import os
 import re
 
 from monty.serialization import loadfn
@@ -58,17 +59,19 @@ def auto_load(filename):
         (beep.structure.base.BEEPDatapath): The datapath child class corresponding to this file.
 
     """
-    if re.match(ARBIN_CONFIG["file_pattern"], filename) or re.match(FastCharge_CONFIG["file_pattern"], filename):
+    # The patterns are for file names, the directories do not count
+    name = os.path.basename(filename)
+    if re.match(ARBIN_CONFIG["file_pattern"], name) or re.match(FastCharge_CONFIG["file_pattern"], name):
         return ArbinDatapath.from_file(filename)
-    elif re.match(MACCOR_CONFIG["file_pattern"], filename) or re.match(xTesladiag_CONFIG["file_pattern"], filename):
+    elif re.match(MACCOR_CONFIG["file_pattern"], name) or re.match(xTesladiag_CONFIG["file_pattern"], name):
         return MaccorDatapath.from_file(filename)
-    elif re.match(INDIGO_CONFIG["file_pattern"], filename):
+    elif re.match(INDIGO_CONFIG["file_pattern"], name):
         return IndigoDatapath.from_file(filename)
-    elif re.match(BIOLOGIC_CONFIG["file_pattern"], filename):
+    elif re.match(BIOLOGIC_CONFIG["file_pattern"], name):
         return BiologicDatapath.from_file(filename)
-    elif re.match(NEWARE_CONFIG["file_pattern"], filename):
+    elif re.match(NEWARE_CONFIG["file_pattern"], name):
         return NewareDatapath.from_file(filename)
-    elif re.match(BatteryArchiveDatapath.FILE_PATTERN, filename):
+    elif re.match(BatteryArchiveDatapath.FILE_PATTERN, name):
         return BatteryArchiveDatapath.from_file(filename)
     else:
         raise ValueError("{} does not match any known file pattern".format(filename))
-- 
2.43.0


From 00b7d2deafa5e93b87626f4f7f73cf9e92db3a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:42 +0000
Subject: [PATCH 53/78] fix: structure refuses to write two files to one output

---
 beep/cmd.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/beep/cmd.py b/beep/cmd.py
index bcadd57..9e57fa9 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -518,6 +518,16 @@ def structure(
                 for f in files
             ]
 
+    # No structured file may overwrite another
+    inputs_by_output = {}
+    for f, output_file in zip(files, output_files):
+        other = inputs_by_output.setdefault(output_file, f)
+        if other != f:
+            raise ValueError(
+                f"Input files '{other}' and '{f}' would both be written to "
+                f"'{output_file}'! Specify different --output-filenames."
+            )
+
     if automatic and not protocol_parameters_dir:
         logger.warning(
             "--automatic was passed but no protocol parameters "
-- 
2.43.0


From 1a34e7dafa25b971d932a2048379d54ba7ef01e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:42 +0000
Subject: [PATCH 54/78] fix: s3 objects neither replace local inputs nor
 reorder them

---
 beep/cmd.py | 48 +++++++++++++++++++++++++++++++-----------------
 1 file changed, 31 insertions(+), 17 deletions(-)

diff --git a/beep/cmd.py b/beep/cmd.py
index 9e57fa9..0f6bcd6 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -444,15 +444,15 @@ def structure(
         s3_keys = [o.key for o in s3_objs]
 
         # local files matching globs are pre-expanded by Click
-        s3_keys_matched = []
-        local_files = []
+        # (path or key, is it an s3 key), in the order of the input
+        matches = []
         for maybe_glob in files:
+            # local files have priority over s3 keys
+            if os.path.exists(maybe_glob):
+                matches.append((maybe_glob, False))
             # add direct matches
-            if "*" not in maybe_glob:
-                if maybe_glob in s3_keys:
-                    s3_keys_matched.append(maybe_glob)
-                else:
-                    local_files.append(maybe_glob)
+            elif "*" not in maybe_glob:
+                matches.append((maybe_glob, maybe_glob in s3_keys))
             else:
                 # its a glob, and real local globs will
                 # be pre-expanded by click, so the only
@@ -460,24 +460,38 @@ def structure(
                 # globs are invalid/bad paths
                 matching_files = fnmatch.filter(s3_keys, maybe_glob)
                 if matching_files:
-                    s3_keys_matched += matching_files
+                    matches += [(key, True) for key in matching_files]
                 else:
-                    local_files.append(maybe_glob)
+                    matches.append((maybe_glob, False))
 
+        s3_keys_matched = [m for m, is_s3 in matches if is_s3]
         logger.info(f"Found {len(s3_keys_matched)} matching files on s3")
-        local_files_from_s3 = []
+
+        pardir = S3_CACHE if s3_use_cache else ctx.obj.cwd
+        pardir = os.path.abspath(pardir)
+
+        # Files are stored by the last part of their key, which must tell them apart
+        keys_by_fullname = {}
+        local_fullnames = [os.path.abspath(m) for m, is_s3 in matches if not is_s3]
         for s3k in s3_keys_matched:
-            s3k_basename = os.path.basename(s3k)
-            pardir = S3_CACHE if s3_use_cache else ctx.obj.cwd
-            pardir = os.path.abspath(pardir)
+            s3k_local_fullname = os.path.join(pardir, os.path.basename(s3k))
+            other = keys_by_fullname.setdefault(s3k_local_fullname, s3k)
+            if other != s3k or s3k_local_fullname in local_fullnames:
+                raise ValueError(
+                    f"S3 object '{s3k}' would overwrite another input file at '{s3k_local_fullname}'!"
+                )
+
+        for s3k_local_fullname, s3k in keys_by_fullname.items():
             if not os.path.exists(pardir):
                 os.makedirs(pardir)
-            s3k_local_fullname = os.path.join(pardir, s3k_basename)
             logger.info(f"Fetching {s3k} from {s3_bucket}")
             download_s3_object(s3_bucket, s3k, s3k_local_fullname)
-            logger.info(f"Fetched s3 file {s3k_basename} to {s3k_local_fullname}")
-            local_files_from_s3.append(s3k_local_fullname)
-        files = local_files + local_files_from_s3
+            logger.info(f"Fetched s3 file {s3k} to {s3k_local_fullname}")
+
+        files = [
+            os.path.join(pardir, os.path.basename(m)) if is_s3 else m
+            for m, is_s3 in matches
+        ]
 
     files = [os.path.abspath(f) for f in files]
 
-- 
2.43.0


From 1b9371c2068dd8b42e67385313c8eefa68b7b4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:52 +0000
Subject: [PATCH 55/78] fix: featurize writes the auto-named matrix into the
 output directory

---
 beep/cmd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/cmd.py b/beep/cmd.py
index 0f6bcd6..1d38490 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -953,7 +953,7 @@ def featurize(
         if output_filename:
             output_filename = os.path.abspath(output_filename)
         else:
-            output_filename = os.path.join(ctx.obj.cwd, default_filename)
+            output_filename = os.path.join(output_dir, default_filename)
 
         dumpfn(feature_matrix, output_filename)
         logger.info(f"Feature matrix of size {feature_matrix.matrix.shape} s"
-- 
2.43.0


From df4390462d49f7d79f34584aed5ac5a61ced53f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:37 +0000
Subject: [PATCH 56/78] fix: featurize writes no matrix file when there are no
 features

---
 beep/cmd.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/beep/cmd.py b/beep/cmd.py
index 1d38490..6b2214e 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -946,6 +946,9 @@ def featurize(
 
     feature_matrix_status = {}
     try:
+        if not bfs:
+            raise BEEPFeaturizationError("No featurizer succeeded on any file")
+
         feature_matrix = BEEPFeatureMatrix(bfs)
         default_filename = f"FeatureMatrix-{datetime.datetime.now().strftime('%Y-%d-%m_%H.%M.%S.%f')}.json.gz"
 
-- 
2.43.0


From c8570489d0b87597cbdfc3903d0241ed2a9b508f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:37 +0000
Subject: [PATCH 57/78] fix: featurize keeps its intermediate files apart

---
 beep/cmd.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/beep/cmd.py b/beep/cmd.py
index 6b2214e..c9db858 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -860,6 +860,7 @@ def featurize(
     }
     i = 0
     bfs = []
+    intermediate_paths = set()
     for file in files:
         log_prefix = f"File {i + 1} of {n_files}"
 
@@ -914,6 +915,16 @@ def featurize(
                 if save_intermediates:
                     intermediate_filename = f"{fclass_name}-{os.path.basename(file)}"
                     output_path = os.path.join(output_dir, intermediate_filename)
+
+                    # Same featurizer with other hyperparameters, or same
+                    # filename in another directory
+                    n_duplicates = 1
+                    while output_path in intermediate_paths:
+                        n_duplicates += 1
+                        intermediate_filename = f"{fclass_name}-{n_duplicates}-{os.path.basename(file)}"
+                        output_path = os.path.join(output_dir, intermediate_filename)
+                    intermediate_paths.add(output_path)
+
                     dumpfn(f, output_path)
                     logger.info(
                         f"{log_prefix}: Featurizer {fclass_name} features for '{file}' written to '{output_path}'")
-- 
2.43.0


From 8259f0113c3a48f9c9f255202403cbb378d32e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:37 +0000
Subject: [PATCH 58/78] fix: a file which does not load does not stop the
 featurization of the others

---
 beep/cmd.py | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/beep/cmd.py b/beep/cmd.py
index c9db858..b259d1b 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -868,15 +868,33 @@ def featurize(
         logger.debug(f"Hashing file '{file}' to MD5")
         op_result = {
             "walltime": None,
-            "processed_md5_chksum": md5sum(file),
+            "processed_md5_chksum": None,
+            "traceback": None,
             "featurizers": []
         }
 
-        logger.debug(f"{log_prefix}: Loading processed run '{file}'.")
-        structured_datapath = auto_load_processed(file)
-        logger.debug(f"{log_prefix}: Loaded processed run '{file}' into memory.")
+        structured_datapath = None
+        try:
+            op_result["processed_md5_chksum"] = md5sum(file)
+
+            logger.debug(f"{log_prefix}: Loading processed run '{file}'.")
+            structured_datapath = auto_load_processed(file)
+            logger.debug(f"{log_prefix}: Loaded processed run '{file}' into memory.")
+
+        except KeyboardInterrupt:
+            logger.critical("Keyboard interrupt caught - exiting...")
+            ctx.exit(1)
+
+        except BaseException:
+            tbinfo = sys.exc_info()
+            logger.error(f"{log_prefix}: Failed to load: ({tbinfo[0].__name__}): {file}")
+            op_result["traceback"] = traceback.format_exception(*tbinfo)
+
+            if ctx.obj.halt_on_error:
+                raise
 
-        for fclass, f_hyperparams in fclass_tuples:
+        # No featurizer can be applied to a file which did not load
+        for fclass, f_hyperparams in fclass_tuples if structured_datapath is not None else []:
             fclass_name = fclass.__name__
             op_subresult = {
                 "featurizer_name": fclass_name,
-- 
2.43.0


From ebc861b233031e3ded1ba5bad1503434e1581fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:52 +0000
Subject: [PATCH 59/78] fix: train passes its nan thresholds and l1 ratios on
 to the experiment

---
 beep/cmd.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/beep/cmd.py b/beep/cmd.py
index b259d1b..a4998a5 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -1314,15 +1314,15 @@ def train(
         l1_ratios = [float(l1r) for l1r in l1_ratios.strip().split(",")]
 
     additional_kwargs = {
-        "train_feature_nan_thresh": train_feature_nan_thresh,
-        "train_sample_nan_thresh": train_sample_nan_thresh,
+        "train_feature_drop_nan_thresh": train_feature_nan_thresh,
+        "train_sample_drop_nan_thresh": train_sample_nan_thresh,
         "predict_sample_nan_thresh": predict_sample_nan_thresh,
         "drop_nan_training_targets": drop_nan_training_targets,
         "impute_strategy": impute_strategy,
         "kfold": kfold,
         "max_iter": max_iter,
         "tol": tol,
-        "l1_ratios": l1_ratios,
+        "l1_ratio": l1_ratios,
         "homogenize_features": homogenize_features,
         "alphas": alphas,
     }
-- 
2.43.0


From 9dd8382dea77b03d234d0765f1f6e2355d02a9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:52 +0000
Subject: [PATCH 60/78] fix: train searches the grid of alphas it is given

---
 beep/cmd.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/beep/cmd.py b/beep/cmd.py
index a4998a5..2e378a1 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -1130,7 +1130,7 @@ def featurize(
 @click.option(
     "--n-alphas",
     "-an",
-    type=click.FLOAT,
+    type=click.INT,
     help="Number of linearly spaced alphas to explore during "
          "hyperparameter tuning. If not specified, sklearn defaults "
          "are used. Must be specified with --alpha-upper and "
@@ -1305,10 +1305,14 @@ def train(
     )
 
     alpha_params = [alpha_lower, alpha_upper, n_alphas]
-    if any(alpha_params) and not all(alpha_params):
-        alphas = np.linspace(start=alpha_lower, stop=alpha_upper, num=n_alphas)
-    else:
-        alphas = None
+    alphas = None
+    if any(a is not None for a in alpha_params):
+        if any(a is None for a in alpha_params):
+            raise ValueError(
+                "--alpha-lower, --alpha-upper, and --n-alphas must be "
+                "specified together."
+            )
+        alphas = np.linspace(start=alpha_lower, stop=alpha_upper, num=n_alphas).tolist()
 
     if l1_ratios is not None:
         l1_ratios = [float(l1r) for l1r in l1_ratios.strip().split(",")]
-- 
2.43.0


From b5bb64731154261040596bf98f6a0f7f9d220e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:52 +0000
Subject: [PATCH 61/78] fix: train can be told to keep samples with nan targets

---
 beep/cmd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/cmd.py b/beep/cmd.py
index 2e378a1..3e2d3a8 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -1160,7 +1160,7 @@ def featurize(
          "be nan."
 )
 @click.option(
-    "--drop-nan-training-targets",
+    "--drop-nan-training-targets/--no-drop-nan-training-targets",
     is_flag=True,
     default=True,
     help="Drop samples containing any nan targets. If False and "
-- 
2.43.0


From da2fd9414e04a4867f63fdfef0cb7dd6d45fcbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:53 +0000
Subject: [PATCH 62/78] fix: predict accepts a sample nan threshold of 0

---
 beep/cmd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/cmd.py b/beep/cmd.py
index 3e2d3a8..4e8189a 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -1527,7 +1527,7 @@ def predict(
 
         # Optionally override the previously set sample nan thresh
         # for prediction dataframes
-        if predict_sample_nan_thresh:
+        if predict_sample_nan_thresh is not None:
             model.predict_sample_nan_thresh = predict_sample_nan_thresh
 
         logging.debug(
-- 
2.43.0


From f03c7e4108518f2b5280a75401ffeb085962e9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:15 +0000
Subject: [PATCH 63/78] fix: writing a Maccor waveform leaves the waveform
 given as it was

---
 beep/protocol/maccor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beep/protocol/maccor.py b/beep/protocol/maccor.py
index 997d199..d8894ca 100644
--- a/beep/protocol/maccor.py
+++ b/beep/protocol/maccor.py
@@ -1475,6 +1475,8 @@ def generate_maccor_waveform_file(df, file_prefix, file_directory, mwf_config=No
     if mwf_config is None:
         mwf_config = MACCOR_WAVEFORM_CONFIG
 
+    df = df.copy()
+
     if "power" in df.columns:
         df["power"] = df["power"] / max(abs(df["power"])) * mwf_config["value_scale"]
         df["step_counter"] = df["power"].diff().fillna(0).ne(0).cumsum()
-- 
2.43.0


From 1ebd60cdf6117963750623d433709ec447a3ba03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:15 +0000
Subject: [PATCH 64/78] fix: a driving waveform does not change the default
 waveform settings

---
 beep/protocol/maccor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/protocol/maccor.py b/beep/protocol/maccor.py
index d8894ca..0a2e86b 100644
--- a/beep/protocol/maccor.py
+++ b/beep/protocol/maccor.py
@@ -1347,7 +1347,7 @@ def insert_driving_parametersv1(reg_params, waveform_directory=None):
             power_scaling (float): Power relative to the other profiles
         waveform_directory (str): path to save waveform files
     """
-    mwf_config = MACCOR_WAVEFORM_CONFIG
+    mwf_config = MACCOR_WAVEFORM_CONFIG.copy()
     velocity_name = reg_params["discharge_profile"] + "_velocity_waveform.txt"
     velocity_file = os.path.join(PROTOCOL_SCHEMA_DIR, velocity_name)
     df = convert_velocity_to_power_waveform(velocity_file, velocity_units="mph")
-- 
2.43.0


From 59f120b384c40d5e097c3c7623d11323ff178355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:15 +0000
Subject: [PATCH 65/78] fix: charging windows that do not follow each other are
 refused

---
 beep/utils/waveform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/utils/waveform.py b/beep/utils/waveform.py
index de13813..cf754aa 100644
--- a/beep/utils/waveform.py
+++ b/beep/utils/waveform.py
@@ -103,7 +103,7 @@ class RapidChargeWave:
         np.array: array with the multistep current as a function of the uniform time basis
         np.array: array with the corresponding uniformly spaced time values
         """
-        assert np.all(np.diff(mesh_points)) > 0
+        assert np.all(np.diff(mesh_points) > 0)
         current_smooth, time_smooth, current_multistep, time_multistep = \
             self.get_input_currents_both_to_final_soc(charging_c_rates, mesh_points)
         end_time_smooth = int(np.round(np.max(time_smooth), 0))
-- 
2.43.0


From b043cab819633e74f4a871ac5df3acc2e3b40cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:25 +0000
Subject: [PATCH 66/78] fix: protocol reports the rows it could not generate

---
 beep/cmd.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/beep/cmd.py b/beep/cmd.py
index 4e8189a..5302f82 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -1642,7 +1642,7 @@ def protocol(
     output_files, failures, result, message = [], [], "", {}
     try:
         results = generate_protocol_files_from_csv(csv_file, output_directory=output_dir)
-        output_files, file_generation_failures, result, message = results
+        output_files, failures, result, message = results
 
         if result == "error" or failures:
             msg = message["comment"]
@@ -1660,8 +1660,7 @@ def protocol(
     for of in output_files:
         status_json["protocol"][of] = {"generated": True}
 
-    for f in failures:
-        status_json["protocol"][f] = {"generated": False}
+    status_json["failures"] = failures
 
     status_json["walltime"] = t1 - t0
     status_json = add_metadata_to_status_json(status_json, ctx.obj.run_id, ctx.obj.tags)
-- 
2.43.0


From df39b17926069378b82ff99c4e82869589d6baa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:25 +0000
Subject: [PATCH 67/78] fix: protocol ends with a nonzero exit code when
 interrupted or told to halt on errors

---
 beep/cmd.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/beep/cmd.py b/beep/cmd.py
index 5302f82..d8d3578 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -1650,11 +1650,17 @@ def protocol(
             raise ProtocolException(f"'{err}: {msg}'")
         else:
             logger.info(f"Created {len(output_files)} protocol files in `{output_dir}`.")
+    except KeyboardInterrupt:
+        logging.critical("Keyboard interrupt caught - exiting...")
+        ctx.exit(1)
     except BaseException:
         tbinfo = sys.exc_info()
         tbfmt = traceback.format_exception(*tbinfo)
         logger.error(f"Protocol generation failed with : ({tbinfo[0].__name__})")
         status_json["traceback"] = tbfmt
+
+        if ctx.obj.halt_on_error:
+            raise
     t1 = time.time()
 
     for of in output_files:
-- 
2.43.0


From 8225df10b48fee11b46d92afec68075792712762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:45 +0000
Subject: [PATCH 68/78] fix: rows with one project and sequence number do not
 overwrite each other's protocol

---
 beep/protocol/generate_protocol.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/beep/protocol/generate_protocol.py b/beep/protocol/generate_protocol.py
index 486d231..3618248 100644
--- a/beep/protocol/generate_protocol.py
+++ b/beep/protocol/generate_protocol.py
@@ -103,6 +103,7 @@ def generate_protocol_files_from_csv(csv_filename, output_directory=None):
     successfully_generated_files = []
     file_generation_failures = []
     names = []
+    output_names = []
     result = ""
     message = {"comment": "", "error": ""}
     if output_directory is None:
@@ -124,6 +125,17 @@ def generate_protocol_files_from_csv(csv_filename, output_directory=None):
                 "{:06d}".format(protocol_params["seq_num"]),
             ]
         )
+        output_name = filename_prefix + os.path.splitext(template)[1]
+        if output_name in output_names:  # Would overwrite the protocol of an earlier row
+            failure = {
+                "comment": "Protocol already generated: " + output_name,
+                "error": "Duplicate",
+            }
+            file_generation_failures.append(failure)
+            logger.warning(failure["comment"])
+            result = "error"
+            continue
+
         if ".000" in template:  # Extension for maccor procedure files
             template_fullpath = os.path.join(PROCEDURE_TEMPLATE_DIR, template)
             template_length = template_detection(template_fullpath)
@@ -209,6 +221,7 @@ def generate_protocol_files_from_csv(csv_filename, output_directory=None):
         protocol.to_file(filename)
         successfully_generated_files.append(filename)
         names.append(filename_prefix + "_")
+        output_names.append(output_name)
 
     # This block of code produces the file containing all of the run file
     # names produced in this function call. This is to make starting tests easier
-- 
2.43.0


From b8ec20a624317cafa2a938821630b924dc76dcfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:24 +0000
Subject: [PATCH 69/78] fix: load_eis crashed on its progress bar

---
 beep/structure/maccor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/structure/maccor.py b/beep/structure/maccor.py
index be45cb3..c350de7 100644
--- a/beep/structure/maccor.py
+++ b/beep/structure/maccor.py
@@ -162,7 +162,7 @@ class MaccorDatapath(BEEPDatapathWithEIS):
             paths = glob(eis_pattern)
 
         eis_runs = []
-        for path in tqdm.tqdm(paths, desc="Loading EIS files..."):
+        for path in tqdm(paths, desc="Loading EIS files..."):
             eis = self.MaccorEIS.from_file(path)
             eis_runs.append(eis)
 
-- 
2.43.0


From 0695f836709fe9dde120e474d18ae0303c3e986b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:24 +0000
Subject: [PATCH 70/78] fix: Maccor EIS could not be serialised

---
 beep/structure/maccor.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/beep/structure/maccor.py b/beep/structure/maccor.py
index c350de7..4b2604f 100644
--- a/beep/structure/maccor.py
+++ b/beep/structure/maccor.py
@@ -68,6 +68,33 @@ class MaccorDatapath(BEEPDatapathWithEIS):
             data = pd.read_csv(StringIO(data), delimiter="\t")
             return cls(data=data, metadata=metadata)
 
+        def as_dict(self):
+            """Method for serialization as dictionary; Maccor EIS metadata is a dictionary.
+
+            Returns:
+                ({}): dictionary representation of this object
+
+            """
+            return {
+                "@module": self.__class__.__module__,
+                "@class": self.__class__.__name__,
+                "data": self.data.to_dict("list"),
+                "metadata": dict(self.metadata)
+            }
+
+        @classmethod
+        def from_dict(cls, d):
+            """Method of invocation from dictionary
+
+            Args:
+                d ({}): dictionary from which to invoke
+
+            Returns:
+                (MaccorEIS): object invoked from dictionary
+
+            """
+            return cls(pd.DataFrame(d["data"]), dict(d["metadata"]))
+
     @classmethod
     def from_file(cls, path):
         """Create a MaccorDatapath file from a Maccor cycler run raw file.
-- 
2.43.0


From 0e239e39e685278d7b563ee2bd23f5f39ebba986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:31 +0000
Subject: [PATCH 71/78] fix: synthetic fitting uses the dQdV error for dQdV

---
 beep/features/intracell_analysis_v2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/features/intracell_analysis_v2.py b/beep/features/intracell_analysis_v2.py
index 4c19e3a..58fa5d2 100644
--- a/beep/features/intracell_analysis_v2.py
+++ b/beep/features/intracell_analysis_v2.py
@@ -798,7 +798,7 @@ class IntracellAnalysisV2:
             elif error_type == 'dVdQ':
                 return self._get_error_from_degradation_matching_dvdq(x, *params)[0]
             elif error_type == 'dQdV':
-                return self._get_error_from_degradation_matching_dvdq(x, *params)[0]
+                return self._get_error_from_degradation_matching_dqdv(x, *params)[0]
             else:
                 return self._get_error_from_degradation_matching_v_q(x, *params)[0]
         except RuntimeError:
-- 
2.43.0


From b68a846ed44b8117a92306ca5f137a8b5d2022b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:31 +0000
Subject: [PATCH 72/78] fix: dVdQ over voltage was computed as dQdV

---
 beep/features/intracell_analysis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beep/features/intracell_analysis.py b/beep/features/intracell_analysis.py
index debff2b..51be09e 100644
--- a/beep/features/intracell_analysis.py
+++ b/beep/features/intracell_analysis.py
@@ -284,10 +284,10 @@ class IntracellAnalysis:
          emulated_full_cell_interped) = self.halfcell_initial_matching_v2(x, *params)
 
         # Calculate dVdQ from full cell profiles
-        dv_dq_real = pd.DataFrame(np.gradient(df_real_interped['SOC_aligned'], df_real_interped['Voltage_aligned']),
+        dv_dq_real = pd.DataFrame(np.gradient(df_real_interped['Voltage_aligned'], df_real_interped['SOC_aligned']),
                                   columns=['dVdQ'])
         dv_dq_emulated = pd.DataFrame(
-            np.gradient(emulated_full_cell_interped['SOC_aligned'], emulated_full_cell_interped['Voltage_aligned']),
+            np.gradient(emulated_full_cell_interped['Voltage_aligned'], emulated_full_cell_interped['SOC_aligned']),
             columns=['dVdQ'])
 
         # Include original data
-- 
2.43.0


From 8e68a84b1852ccad5c07e8c59ed23d8ee941cae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:01 +0000
Subject: [PATCH 73/78] fix: voltage curves of a cell read a table no datapath
 has

---
 beep/features/intracell_analysis.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/beep/features/intracell_analysis.py b/beep/features/intracell_analysis.py
index 51be09e..8971e34 100644
--- a/beep/features/intracell_analysis.py
+++ b/beep/features/intracell_analysis.py
@@ -1038,8 +1038,8 @@ class IntracellAnalysis:
 
     def get_voltage_curves_for_cell(self, processed_cycler_run, cycle_type='rpt_0.2C'):
         # Filter down to only cycles of cycle_type
-        diag_type_cycles = processed_cycler_run.diagnostic_interpolated.loc[
-            processed_cycler_run.diagnostic_interpolated['cycle_type'] == cycle_type]
+        diag_type_cycles = processed_cycler_run.diagnostic_data.loc[
+            processed_cycler_run.diagnostic_data['cycle_type'] == cycle_type]
 
         # Loop across cycles
         cycle_indexes = diag_type_cycles['cycle_index'].unique()
@@ -1290,8 +1290,8 @@ def plot_voltage_curves_for_cell(processed_cycler_run,
     # Plot a series of voltage profiles over cycles for this cell
     fig = plt.figure()
     # Filter down to only cycles of cycle_type
-    diag_type_cycles = processed_cycler_run.diagnostic_interpolated.loc[
-        processed_cycler_run.diagnostic_interpolated['cycle_type'] == cycle_type]
+    diag_type_cycles = processed_cycler_run.diagnostic_data.loc[
+        processed_cycler_run.diagnostic_data['cycle_type'] == cycle_type]
 
     # Loop across cycles
     cycle_indexes = diag_type_cycles['cycle_index'].unique()
-- 
2.43.0


From 8f83e23055ecb0e629467adaa10ccb0e28137df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:01 +0000
Subject: [PATCH 74/78] fix: degradation matching v2 passed its parameters as
 electrode materials

---
 beep/features/intracell_analysis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beep/features/intracell_analysis.py b/beep/features/intracell_analysis.py
index 8971e34..29ff11a 100644
--- a/beep/features/intracell_analysis.py
+++ b/beep/features/intracell_analysis.py
@@ -971,7 +971,8 @@ class IntracellAnalysis:
 
         pe_pristine, ne_pristine, real_full_cell_with_degradation = params
 
-        pe_out, ne_out = self._impose_degradation(pe_pristine, ne_pristine, lli, lam_pe, lam_ne)
+        pe_out, ne_out = self._impose_degradation(pe_pristine, ne_pristine,
+                                                  lli=lli, lam_pe=lam_pe, lam_ne=lam_ne)
         emulated_full_cell_with_degradation = pd.DataFrame()
         emulated_full_cell_with_degradation['SOC_aligned'] = pe_out['SOC_aligned'].copy()
         emulated_full_cell_with_degradation['Voltage_aligned'] = pe_out['Voltage_aligned'] - ne_out['Voltage_aligned']
-- 
2.43.0


From a868f4f7b21c6b5614ab0d01588f1f8859d0a6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:52 +0000
Subject: [PATCH 75/78] fix: blend_electrodes_robust_v2 failed for every blend

---
 beep/features/intracell_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/features/intracell_analysis.py b/beep/features/intracell_analysis.py
index 29ff11a..ccd537c 100644
--- a/beep/features/intracell_analysis.py
+++ b/beep/features/intracell_analysis.py
@@ -440,7 +440,7 @@ class IntracellAnalysis:
         df_ne_blended_matched = ne_pristine_matched.copy()
 
         df_ne_slice_for_matched = df_ne_blended_interper(soc_vec_prematching)
-        df_ne_blended_matched.at[(df_ne_blended_matched.loc[
+        df_ne_blended_matched.loc[(df_ne_blended_matched.loc[
             (~df_ne_blended_matched['Voltage_aligned'].isna())]).index, 'Voltage_aligned'] = df_ne_slice_for_matched
 
         return df_ne_blended_matched
-- 
2.43.0


From 0827cdd618d85b5f03b09fe0a18ee1d8a8744fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:39 +0000
Subject: [PATCH 76/78] fix: list a folder with an empty page of objects in a
 project transfer

---
 beep/utils/project_transfer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/utils/project_transfer.py b/beep/utils/project_transfer.py
index 384583b..d3eb9ac 100644
--- a/beep/utils/project_transfer.py
+++ b/beep/utils/project_transfer.py
@@ -63,7 +63,7 @@ class ProjectTransfer:
         paginator = client.get_paginator("list_objects_v2")
         result = paginator.paginate(Bucket=bucket, Delimiter="/", Prefix=prefix)
         for response in result:
-            object_names = object_names + response["Contents"]
+            object_names = object_names + response.get("Contents", [])
         return object_names
 
     def download_and_modify(self, object_names):
-- 
2.43.0


From 5d09e279531f53f5c36611fa3a70ef791fe25109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:39 +0000
Subject: [PATCH 77/78] fix: write the whole file before a project transfer
 uploads it

---
 beep/utils/project_transfer.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/beep/utils/project_transfer.py b/beep/utils/project_transfer.py
index d3eb9ac..2b4511a 100644
--- a/beep/utils/project_transfer.py
+++ b/beep/utils/project_transfer.py
@@ -83,15 +83,15 @@ class ProjectTransfer:
                 s3.download_file(
                     self.bucket, object_name, os.path.join(scratch_dir, name)
                 )
-                from_file = open(os.path.join(scratch_dir, name))
-                line = from_file.readline()
-                line = line.replace(self.input_project, self.output_project)
                 to_file_name = os.path.join(
                     scratch_dir, name.replace(self.input_project, self.output_project)
                 )
-                to_file = open(to_file_name, "w")
-                to_file.write(line)
-                shutil.copyfileobj(from_file, to_file)
+                # Both files are closed before the upload, so that all of the text is on disk
+                with open(os.path.join(scratch_dir, name)) as from_file, open(to_file_name, "w") as to_file:
+                    line = from_file.readline()
+                    line = line.replace(self.input_project, self.output_project)
+                    to_file.write(line)
+                    shutil.copyfileobj(from_file, to_file)
                 if self.dry_run:
                     output_bucket = "beep-sync-test-stage"
                 else:
-- 
2.43.0


From 71c595205b240582adc079cc79b7543a05e36b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:04 +0000
Subject: [PATCH 78/78] fix: beep inspect names the featurizer file it shows

---
 beep/cmd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/cmd.py b/beep/cmd.py
index d8d3578..1aa08fa 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -1757,7 +1757,7 @@ def inspect(file):
                 print("\tNo object.")
 
     elif isinstance(o, BEEPFeaturizer):
-        print("\n\nBEEP Featurizer: {file}\n\n")
+        print(f"\n\nBEEP Featurizer: {file}\n\n")
 
         print("\nFile paths:")
         pprint.pprint(o.paths)
-- 
2.43.0

