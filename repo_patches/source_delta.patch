From d3983382e696cb228e17fac07de68b443fba1089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:48:46 +0000
Subject: [PATCH 01/25] fix: drop empty rows from the rainflow count of signals
 with flat ends

---
 py_fatigue/cycle_count/rainflow.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/py_fatigue/cycle_count/rainflow.py b/py_fatigue/cycle_count/rainflow.py
index 7d823f8..40b9c3a 100644
--- a/py_fatigue/cycle_count/rainflow.py
+++ b/py_fatigue/cycle_count/rainflow.py
@@ -390,16 +390,16 @@ def findrfc_astm(tp: np.ndarray, t: Optional[np.ndarray] = None) -> np.ndarray:
     a = np.zeros(n)
     if t is None:
         sig_rfc = np.zeros((n, 3))
-        cnr = _findrfc3_astm(y1, a, sig_rfc)
+        _findrfc3_astm(y1, a, sig_rfc)
     else:
         t1 = np.atleast_1d(t).ravel()
         sig_rfc = np.zeros((n, 5))
         t2 = np.zeros(n)
-        cnr = _findrfc5_astm(y1, t1, a, t2, sig_rfc)
+        _findrfc5_astm(y1, t1, a, t2, sig_rfc)
     # the sig_rfc was constructed too big in rainflow.rf3, so
-    # reduce the sig_rfc array as done originally by a matlab mex c function
-    # n = len(sig_rfc)
-    return sig_rfc[: n - cnr[0]]
+    # keep only the rows that hold a cycle: repeated turning points (flat
+    # leading or trailing parts of the signal) do not give any.
+    return sig_rfc[sig_rfc[:, 2] > 0]
 
 
 def rainflow(
-- 
2.43.0


From 6db13c3b50cbcf3cdc16e540acb0267d412f23d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:48:46 +0000
Subject: [PATCH 02/25] fix: keep the end points of signals with fewer than two
 extrema

---
 py_fatigue/cycle_count/rainflow.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/py_fatigue/cycle_count/rainflow.py b/py_fatigue/cycle_count/rainflow.py
index 40b9c3a..ef5f9b2 100644
--- a/py_fatigue/cycle_count/rainflow.py
+++ b/py_fatigue/cycle_count/rainflow.py
@@ -74,11 +74,11 @@ def findtp(x: np.ndarray) -> np.ndarray:
     findextrema
     """
 
-    ind = findextrema(x)
-
-    if ind.size < 2:
+    if len(x) < 2:
         return np.empty(0, dtype=np.int64)
 
+    ind = findextrema(x)
+
     # # the Nieslony approach always put the first loading point as the first
     # # turning point.
     # add the first turning point is the first of the signal
-- 
2.43.0


From df948f22c1b2cc60c1a6bd21b035aac60e8008d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:16:04 +0000
Subject: [PATCH 03/25] fix: keep the unit when adding, scaling, resolving and
 correcting cycle counts

---
 py_fatigue/cycle_count/cycle_count.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/py_fatigue/cycle_count/cycle_count.py b/py_fatigue/cycle_count/cycle_count.py
index d8ddc3a..8c9d88f 100644
--- a/py_fatigue/cycle_count/cycle_count.py
+++ b/py_fatigue/cycle_count/cycle_count.py
@@ -951,6 +951,7 @@ class CycleCount:
             mean_stress_corrected="No",
             stress_concentration_factor=float(added_scf),
             timestamp=min(self.timestamp, other.timestamp),
+            unit=self.unit,
             name=self.name,
             _time_sequence=np.unique(
                 np.hstack([self.time_sequence, other.time_sequence])
@@ -1184,6 +1185,7 @@ class CycleCount:
             stress_range=stress_ranges_corr,
             mean_stress=mean_stress_corr,
             timestamp=self_.timestamp,
+            unit=self_.unit,
             range_bin_lower_bound=self_.range_bin_lower_bound,
             range_bin_width=self_.range_bin_width,
             _mean_bin_lower_bound=self_.mean_bin_lower_bound,
@@ -1516,6 +1518,7 @@ def _multiplication_by_scalar(
         mean_stress_corrected=self_.mean_stress_corrected,
         stress_concentration_factor=mul_scf,
         timestamp=self_.timestamp,
+        unit=self_.unit,
         name=str(self_.name) + ", SCF=" + str(other_),
     )
 
@@ -1734,6 +1737,7 @@ def _solve_lffd(
         stress_range=2 * res_rf[:, 0],
         mean_stress=res_rf[:, 1],
         timestamp=self_.timestamp,
+        unit=self_.unit,
         _mean_bin_lower_bound=self_.mean_bin_lower_bound,
         mean_bin_width=self_.mean_bin_width,
         range_bin_lower_bound=self_.range_bin_lower_bound,
@@ -1760,6 +1764,7 @@ def _solve_lffd(
         stress_range=self_.stress_range[self_.count_cycle > 0.5],
         mean_stress=self_.mean_stress[self_.count_cycle > 0.5],
         timestamp=self_.timestamp,
+        unit=self_.unit,
         _mean_bin_lower_bound=self_.mean_bin_lower_bound,
         mean_bin_width=self_.mean_bin_width,
         range_bin_lower_bound=self_.range_bin_lower_bound,
-- 
2.43.0


From 145aad7f8106a647ca280912453669b96d51fd77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:16:04 +0000
Subject: [PATCH 04/25] fix: keep small cycles and time sequence when scaling a
 cycle count

---
 py_fatigue/cycle_count/cycle_count.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py_fatigue/cycle_count/cycle_count.py b/py_fatigue/cycle_count/cycle_count.py
index 8c9d88f..d444574 100644
--- a/py_fatigue/cycle_count/cycle_count.py
+++ b/py_fatigue/cycle_count/cycle_count.py
@@ -1512,6 +1512,7 @@ def _multiplication_by_scalar(
         range_bin_width=other_ * self_.range_bin_width,
         _mean_bin_lower_bound=mul_mean_bin,
         mean_bin_width=other_ * self_.mean_bin_width,
+        nr_small_cycles=self_.nr_small_cycles,
         residuals_sequence=mul_res_seq,
         _min_max_sequence=mul_min_max,
         lffd_solved=self_.lffd_solved,
@@ -1520,6 +1521,7 @@ def _multiplication_by_scalar(
         timestamp=self_.timestamp,
         unit=self_.unit,
         name=str(self_.name) + ", SCF=" + str(other_),
+        _time_sequence=self_._time_sequence,
     )
 
     # mul_cc.stress_concentration_factor = (
-- 
2.43.0


From 734f56f91cbe1f208e4873694d48b409dbb6f9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:16:04 +0000
Subject: [PATCH 05/25] fix: handle cycle counts without residuals sequence
 when resolving and exporting

---
 py_fatigue/cycle_count/cycle_count.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/py_fatigue/cycle_count/cycle_count.py b/py_fatigue/cycle_count/cycle_count.py
index d444574..103b1c6 100644
--- a/py_fatigue/cycle_count/cycle_count.py
+++ b/py_fatigue/cycle_count/cycle_count.py
@@ -663,9 +663,13 @@ class CycleCount:
             round_decimals=round_decimals,
             debug_mode=debug_mode,
         )
-        output_dict["res_sig"] = np.asarray(
-            np.round(self.residuals_sequence, round_decimals)
-        ).tolist()
+        output_dict["res_sig"] = (
+            np.asarray(
+                np.round(self.residuals_sequence, round_decimals)
+            ).tolist()
+            if self.residuals_sequence is not None
+            else []
+        )
         return output_dict
 
     def _repr_html_(self) -> str:  # pragma: no cover
@@ -1837,7 +1841,7 @@ def _lffd_checks(self_: CycleCount, solve_mode: str) -> tuple:
         w_msg = "'residuals_sequence' is not available. Nothing to do."
         warnings.formatwarning = py_fatigue_formatwarning
         warnings.warn(w_msg, UserWarning)
-        return_self = True
+        return True, np.empty(0)
     if len(res_sequence) < 3:
         w_msg = "".join(
             (
-- 
2.43.0


From d3de109659f6c596467c67b26ccfa8d4ef023e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:16:04 +0000
Subject: [PATCH 06/25] fix: keep the small cycles already counted when
 exporting a cycle count

---
 py_fatigue/cycle_count/cycle_count.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/py_fatigue/cycle_count/cycle_count.py b/py_fatigue/cycle_count/cycle_count.py
index 103b1c6..992eeed 100644
--- a/py_fatigue/cycle_count/cycle_count.py
+++ b/py_fatigue/cycle_count/cycle_count.py
@@ -663,6 +663,7 @@ class CycleCount:
             round_decimals=round_decimals,
             debug_mode=debug_mode,
         )
+        output_dict["nr_small_cycles"] += self.nr_small_cycles
         output_dict["res_sig"] = (
             np.asarray(
                 np.round(self.residuals_sequence, round_decimals)
-- 
2.43.0


From a491a245271be82b6465ee1b70abe29bdfb86167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:16:04 +0000
Subject: [PATCH 07/25] fix: leave the original untouched when enforcing
 pulsating load

---
 py_fatigue/cycle_count/cycle_count.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_fatigue/cycle_count/cycle_count.py b/py_fatigue/cycle_count/cycle_count.py
index 992eeed..98239e4 100644
--- a/py_fatigue/cycle_count/cycle_count.py
+++ b/py_fatigue/cycle_count/cycle_count.py
@@ -1119,7 +1119,7 @@ class CycleCount:
             warnings.warn(w_msg, UserWarning)
             return self
 
-        self_ = copy.deepcopy(self) if self.lffd_solved else self.solve_lffd()
+        self_ = copy.deepcopy(self if self.lffd_solved else self.solve_lffd())
 
         if np.all((self_.mean_stress == 0)) and not enforce_pulsating_load:
             e_msg = "".join(
-- 
2.43.0


From 6584b8e5b9272f016611489bee0c030f2fc75cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:16:04 +0000
Subject: [PATCH 08/25] fix: bin values on the lower bound and on a rounded
 last edge

---
 py_fatigue/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/py_fatigue/utils.py b/py_fatigue/utils.py
index a027dac..0646c7b 100644
--- a/py_fatigue/utils.py
+++ b/py_fatigue/utils.py
@@ -209,6 +209,8 @@ class FatigueStress:
                 self.bin_width,
                 max(self.full) if len(self.full) > 0 else max(self._values),
             )
+            # at least one bin, also when no value exceeds the lower bound
+            self._bin_ub = max(self._bin_ub, self._bin_lb + self.bin_width)
 
     @property
     def bin_lb(self) -> float:
@@ -326,7 +328,8 @@ class FatigueStress:
         """
         digitized = np.digitize(self.full, self.bin_edges, right=True)
         digitized[np.where(digitized > 0)] -= 1
-        return digitized
+        # the edges are rounded: the largest value may exceed the last one
+        return np.minimum(digitized, len(self.bin_edges) - 2)
 
     @property
     def binned_values(self):
-- 
2.43.0


From 741be119015fd5d6fd840b5eebe5ee14cf7bfab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:16:04 +0000
Subject: [PATCH 09/25] fix: accept a time vector in binned_rainflow

---
 py_fatigue/cycle_count/histogram.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py_fatigue/cycle_count/histogram.py b/py_fatigue/cycle_count/histogram.py
index 2d4e42d..bdd4176 100644
--- a/py_fatigue/cycle_count/histogram.py
+++ b/py_fatigue/cycle_count/histogram.py
@@ -585,11 +585,11 @@ def binned_rainflow(  # pylint: disable=too-many-arguments
     calc_rainflow
     rainflow_binner
     """
-    rfs, res_seq, _ = calc_rainflow(
+    rfs, res_seq = calc_rainflow(
         data=data,
         time=time,
         extended_output=True,
-    )
+    )[:2]
 
     # return rfs, data[res_tp], res_tp, time[res_tp]
 
-- 
2.43.0


From e60225e8943e7307458cc97284de5c4ce92a714e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:16:11 +0000
Subject: [PATCH 10/25] fix: read stored cycle counts without half cycles

---
 py_fatigue/cycle_count/cycle_count.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/py_fatigue/cycle_count/cycle_count.py b/py_fatigue/cycle_count/cycle_count.py
index 98239e4..c7d6d6b 100644
--- a/py_fatigue/cycle_count/cycle_count.py
+++ b/py_fatigue/cycle_count/cycle_count.py
@@ -141,9 +141,14 @@ def _build_input_data_from_json(  # noqa: C901
             data[k] = np.array(v) if isinstance(v, list) else v
     for hst in data["hist"]:
         hst = np.array(hst)
+    # the mean-resolved format stores couples (lists), the legacy one numbers
+    legacy = not any(
+        len(data[k]) > 0 and isinstance(data[k][0], Iterable)
+        for k in ("res", "lg_c", "hist")
+    )
     # A) Case without mean stress
     # Adding hist cycles
-    if len(data["hist"]) > 0 and not isinstance(data["res"][0], Iterable):
+    if len(data["hist"]) > 0 and legacy:
         the_hist = np.asarray(data["hist"])
         zero_hist_counts = np.where(the_hist == 0)[0]
         range_bin_centers = np.around(
@@ -159,15 +164,11 @@ def _build_input_data_from_json(  # noqa: C901
         the_hist = np.delete(the_hist, zero_hist_counts)
         range_bin_centers = np.delete(range_bin_centers, zero_hist_counts)
     # Adding large cycles
-    if len(data["lg_c"]) > 0 and not isinstance(
-        data["res"][0],
-        Iterable,  # isinstance(
-        # data["lg_c"][0], (float, int, np.int16, np.int32)
-    ):
+    if len(data["lg_c"]) > 0 and legacy:
         the_hist = np.hstack([the_hist, np.ones(len(data["lg_c"]))])
         range_bin_centers = np.hstack([range_bin_centers, data["lg_c"]])
     # Adding residual cycles
-    if len(data["res"]) > 0 and not isinstance(data["res"][0], Iterable):
+    if len(data["res"]) > 0 and legacy:
         the_hist = np.hstack([the_hist, 0.5 * np.ones(len(data["res"]))])
         range_bin_centers = np.hstack([range_bin_centers, data["res"]])
     # B) Case with mean stress
-- 
2.43.0


From 851755a694749cb629606b3747f01bb64d329fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:36:17 +0000
Subject: [PATCH 11/25] fix: report the endurance stress of linear S-N curves

A linear curve with a finite endurance reported an endurance stress of zero,
although get_stress() and get_cycles() honour the endurance.
---
 py_fatigue/material/sn_curve.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/py_fatigue/material/sn_curve.py b/py_fatigue/material/sn_curve.py
index 96cb334..25a3a77 100644
--- a/py_fatigue/material/sn_curve.py
+++ b/py_fatigue/material/sn_curve.py
@@ -635,8 +635,7 @@ class SNCurve(AbstractSNCurve):
                     f"({self.get_knee_cycles()} cycles). ",
                     "\nConsider changing params",
                 )
-            return self.get_stress(self.endurance)
-        return 0.0
+        return self.get_stress(self.endurance)
 
     def format_name(self, html_format: bool = False) -> None:
         if not html_format:
-- 
2.43.0


From 0ff44e8da9f8dc13d94a2e6a77ca525be4c73259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:39:55 +0000
Subject: [PATCH 12/25] fix: invert the Paris law on its first and last
 segments

get_sif() returned the threshold for every growth rate on the first segment
and the critical value for every growth rate on the last one, so a curve with
one or two segments was never inverted.
---
 py_fatigue/material/crack_growth_curve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py_fatigue/material/crack_growth_curve.py b/py_fatigue/material/crack_growth_curve.py
index 354cf14..2f1d4e0 100755
--- a/py_fatigue/material/crack_growth_curve.py
+++ b/py_fatigue/material/crack_growth_curve.py
@@ -787,10 +787,10 @@ def _calc_sif(growth_rate, slope, intercept, threshold, critical):
     the_sif = np.empty(growth_rate.size, dtype=np.float64)
     nr_knees = intercept.size - 1
     for i in nb.prange(growth_rate.size):
-        if idx[i] <= 0:  # below threshold
+        if idx[i] < 0:  # below threshold
             the_sif[i] = threshold
             continue
-        if idx[i] >= nr_knees:  # above threshold
+        if idx[i] > nr_knees:  # above threshold
             the_sif[i] = critical
             continue
         the_sif[i] = (growth_rate[i] / intercept[idx[i]]) ** (
-- 
2.43.0


From 896a71173b781ae733fadb3cd1d4edccb75f0e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:39:55 +0000
Subject: [PATCH 13/25] fix: no crack growth rate below the threshold

The zero rate below the threshold was overwritten by the rate of the last
segment.
---
 py_fatigue/damage/crack_growth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_fatigue/damage/crack_growth.py b/py_fatigue/damage/crack_growth.py
index 2942446..d2beb50 100644
--- a/py_fatigue/damage/crack_growth.py
+++ b/py_fatigue/damage/crack_growth.py
@@ -232,7 +232,7 @@ class CalcCrackGrowth:
         knees = self.get_knees_sif
         if sif < self.threshold:
             the_growth_rate = 0.0
-        if sif > self.critical:
+        elif sif > self.critical:
             the_growth_rate = np.inf
         else:
             idx = np.digitize(np.asarray([sif]), knees, right=True) - 1
-- 
2.43.0


From be3e528d3e0e3d7da9c83b6a5348a0e8e6d1a84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:39:55 +0000
Subject: [PATCH 14/25] fix: apply the fraction of a cycle count in crack
 growth

A block of 2.5 cycles was applied as two cycles.
---
 py_fatigue/damage/crack_growth.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/py_fatigue/damage/crack_growth.py b/py_fatigue/damage/crack_growth.py
index d2beb50..72b1af8 100644
--- a/py_fatigue/damage/crack_growth.py
+++ b/py_fatigue/damage/crack_growth.py
@@ -480,7 +480,8 @@ def get_crack_growth(
         else:
             splts = [int(cycle) for cycle in cycle_count.count_cycle]
         splt_cyc = [
-            split(int(cycle), n) if int(cycle) > 0 else [cycle]
+            (split(int(cycle), n) if int(cycle) > 0 else [])
+            + ([cycle % 1] if cycle % 1 or cycle == 0 else [])
             for cycle, n in zip(cycle_count.count_cycle, splts)
         ]
         splt_len = [len(_) for _ in splt_cyc]
@@ -605,7 +606,8 @@ class CrackGrowth:
                     int(cycle) for cycle in self._obj["count_cycle"].values
                 ]
             splt_cyc = [
-                split(int(cycle), n) if int(cycle) > 0 else [cycle]
+                (split(int(cycle), n) if int(cycle) > 0 else [])
+                + ([cycle % 1] if cycle % 1 or cycle == 0 else [])
                 for cycle, n in zip(self._obj["count_cycle"].values, splts)
             ]
             splt_len = [len(_) for _ in splt_cyc]
-- 
2.43.0


From 7c352456611424929ace639b51f490523f4c8021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:40:42 +0000
Subject: [PATCH 15/25] fix: align the crack growth table with its clustered
 cycles

The rows of the table were looked up by the number of cycles instead of the
number of blocks. This failed with an IndexError when the crack failed within
the spectrum or in express mode, and mixed up rows when half cycles were
present.
---
 py_fatigue/damage/crack_growth.py | 33 +++++++++++++------------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/py_fatigue/damage/crack_growth.py b/py_fatigue/damage/crack_growth.py
index 72b1af8..11b6adf 100644
--- a/py_fatigue/damage/crack_growth.py
+++ b/py_fatigue/damage/crack_growth.py
@@ -619,6 +619,7 @@ class CrackGrowth:
                 self._obj["stress_range"].values, splt_len
             )
         else:
+            splt_len = [1] * len(self._obj)
             stress_range = self._obj["stress_range"].values
             count_cycle = self._obj["count_cycle"].values
 
@@ -644,25 +645,19 @@ class CrackGrowth:
 
         cumul_cycle = np.cumsum(cg_.count_cycle[: len(cg_.crack_depth)])
         # manage the fact that clustered cycles are split in cg analysys
-        # while the df keeps them clustered
-        d_l = len(self._obj) - len(cg_.crack_depth)
-        if d_l >= 0:
-            self._obj["crack_depth"] = np.concatenate(
-                (cg_.crack_depth, np.full(d_l, np.nan))
-            )
-            self._obj["sif"] = np.concatenate((cg_.sif, np.full(d_l, np.nan)))
-            self._obj["cumul_cycle"] = np.concatenate(
-                (cumul_cycle, np.full(d_l, np.nan))
-            )
-            self._obj["geometry_factor"] = np.concatenate(
-                (cg_.geometry_factor, np.full(d_l, np.nan))
-            )
-        else:
-            idx = np.asarray(self._obj["count_cycle"].cumsum(), dtype=int) - 1
-            self._obj["crack_depth"] = cg_.crack_depth[idx]
-            self._obj["sif"] = cg_.sif[idx]
-            self._obj["cumul_cycle"] = cumul_cycle[idx]
-            self._obj["geometry_factor"] = cg_.geometry_factor[idx]
+        # while the df keeps them clustered: each row reports its last block,
+        # rows that were not completed before failure report nan
+        idx = np.cumsum(splt_len) - 1
+        done = idx < len(cg_.crack_depth)
+        for col, val in (
+            ("crack_depth", cg_.crack_depth),
+            ("sif", cg_.sif),
+            ("cumul_cycle", cumul_cycle),
+            ("geometry_factor", cg_.geometry_factor),
+        ):
+            row_val = np.full(len(idx), np.nan)
+            row_val[done] = val[idx[done]]
+            self._obj[col] = row_val
         self._obj.cg_curve = cg_curve
         self.cg_curve = cg_curve
         self._obj.crack_geometry = crack_geometry
-- 
2.43.0


From aa9a82b2d1073c71a315341a9a99beffe6e33dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:40:58 +0000
Subject: [PATCH 16/25] fix: refuse mismatched units in all crack growth entry
 points

The table accessor did not compare the units at all, and get_crack_growth()
accepted any part of the curve's unit (cycles in Pa with a curve in MPa).
---
 py_fatigue/damage/crack_growth.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/py_fatigue/damage/crack_growth.py b/py_fatigue/damage/crack_growth.py
index 11b6adf..28f1392 100644
--- a/py_fatigue/damage/crack_growth.py
+++ b/py_fatigue/damage/crack_growth.py
@@ -3,6 +3,7 @@ damage models related to the crack growth approach.
 """
 
 # Packages from the Python Standard Library
+import re
 from typing import Dict, Tuple, Type, TypeVar
 
 # Packages from third party libraries
@@ -396,6 +397,16 @@ def get_sif(
     return stress_ * np.sqrt(np.pi * crack_depth_) * y_1, y_1
 
 
+def _check_units(unit: str, cg_unit: str) -> None:
+    """Refuse cycles whose unit is not the stress unit of the curve"""
+    if not re.search(rf"(?<!\w){re.escape(unit)}(?!\w)", cg_unit):
+        e_msg = (
+            f"Cycle count unit ({unit}) and crack growth "
+            f"curve unit ({cg_unit}) are not compatible."
+        )
+        raise ValueError(e_msg)
+
+
 def get_crack_growth(
     cycle_count: CycleCount,
     cg_curve: ParisCurve,
@@ -466,12 +477,7 @@ def get_crack_growth(
     # Handle the stress ranges and cycle counts as they might be clustered
     # in a matrix and we need to iterate over single or "little" cycles
     # within the same stress range block
-    if cycle_count.unit not in cg_curve.unit:
-        e_msg = (
-            f"Cycle count unit ({cycle_count.unit}) and crack growth "
-            f"curve unit ({cg_curve.unit}) are not compatible."
-        )
-        raise ValueError(e_msg)
+    _check_units(cycle_count.unit, cg_curve.unit)
     if np.max(cycle_count.count_cycle) > 1:
         if express_mode:
             splts = [
@@ -590,6 +596,9 @@ class CrackGrowth:
         """
 
         self._validate(self._obj)
+        unit = dict(self._obj._metadata).get("unit")
+        if unit is not None:
+            _check_units(unit, cg_curve.unit)
 
         # Handle the stress ranges and cycle counts as they might be clustered
         # in a matrix and we need to iterate over single or "little" cycles
-- 
2.43.0


From 4758dbe6e3ca384dd0522d9eeb18b6fbd6ae2879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:20:44 +0000
Subject: [PATCH 17/25] fix: invalid diameter or depth of a hollow cylinder
 raises a validation error

The thickness validator read the outer diameter and the initial depth from
the validated values. A field that failed its own validation is missing
there, so the constructor raised KeyError instead of ValidationError.
---
 py_fatigue/geometry/cylinder.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/py_fatigue/geometry/cylinder.py b/py_fatigue/geometry/cylinder.py
index 20b6eba..333b6ca 100644
--- a/py_fatigue/geometry/cylinder.py
+++ b/py_fatigue/geometry/cylinder.py
@@ -74,10 +74,11 @@ class HollowCylinder(AbstractCrackGeometry):
         cls, v: PositiveFloat, values: dict
     ) -> PositiveFloat:
         """Validate the thickness of the part."""
-        if v >= values["outer_diameter"] / 2:
+        # fields that failed their own validation are not in values
+        if v >= values.get("outer_diameter", np.inf) / 2:
             e_msg = "thickness is greater than or equal to the outer radius"
             raise ValueError(e_msg)
-        if v <= values["initial_depth"]:
+        if v <= values.get("initial_depth", 0.0):
             e_msg = "thickness is less than or equal to the initial depth"
             raise ValueError(e_msg)
         return v
-- 
2.43.0


From 6637757b50eaafcd2214b0f2fda965a01cb8dda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:23:31 +0000
Subject: [PATCH 18/25] fix: aggregating a period in which every cycle count is
 missing gives None

pbar_sum raised an IndexError when all entries of the list were None, so
aggregate_cc failed as soon as one period held no data.
---
 py_fatigue/cycle_count/cycle_count.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py_fatigue/cycle_count/cycle_count.py b/py_fatigue/cycle_count/cycle_count.py
index c7d6d6b..b56e9f3 100644
--- a/py_fatigue/cycle_count/cycle_count.py
+++ b/py_fatigue/cycle_count/cycle_count.py
@@ -1878,6 +1878,8 @@ def pbar_sum(cc_list: Sequence[CycleCount]) -> CycleCount:
 
     chunk_size = int(np.sqrt(len(cc_list)))
     cc_list = [cc for cc in cc_list if cc is not None]
+    if len(cc_list) == 0:
+        return None  # type: ignore
 
     sleep(0.15)
     chunked_cc_list = list(pfu.chunks(cc_list, chunk_size))
-- 
2.43.0


From 34b69de34dc7e149287e5339b91bdeaba52d76a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:23:31 +0000
Subject: [PATCH 19/25] fix: calc_aggregated_damage keeps S-N curves that share
 a name

A list of curves was turned into a dictionary keyed by name, so all but
the last of several curves with the same name were dropped silently.
---
 py_fatigue/cycle_count/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_fatigue/cycle_count/utils.py b/py_fatigue/cycle_count/utils.py
index 7713ae6..e883934 100644
--- a/py_fatigue/cycle_count/utils.py
+++ b/py_fatigue/cycle_count/utils.py
@@ -259,7 +259,7 @@ def calc_aggregated_damage(
             sn = {sn.name: sn}
         elif isinstance(sn, list):
             if all(isinstance(s, SNCurve) for s in sn):
-                sn = {s.name: s for s in sn}
+                sn = {str(i): s for i, s in enumerate(sn)}
             else:
                 raise TypeError(
                     "The S-N curves must be a dict, a list of SNCurve or a "
-- 
2.43.0


From 2bb219970a86384437ade8e811d85739634c7ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:30:16 +0000
Subject: [PATCH 20/25] fix: comparing a cycle count without residuals to one
 with residuals

compare() evaluated None == array, so equality of cycle counts raised a
ValueError in one direction and was False in the other. Arrays without
dimensions were never equal to themselves.
---
 py_fatigue/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py_fatigue/utils.py b/py_fatigue/utils.py
index 0646c7b..93085de 100644
--- a/py_fatigue/utils.py
+++ b/py_fatigue/utils.py
@@ -470,14 +470,14 @@ def compare(a: Any, b: Any) -> bool:
         True if the a and b are equal, False otherwise.
     """
     # print(f"a: {a}, b: {b}")
+    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
+        return np.array_equal(a, b)
     if not hasattr(a, "__iter__") or isinstance(a, str):
         return a == b
 
     try:
         if not len(a) == len(b):
             return False
-        if isinstance(a, np.ndarray):
-            return np.array_equal(a, b)
         if isinstance(a, dict):
             return all(compare(v, b[k]) for k, v in a.items())
         return all(compare(aa, bb) for aa, bb in zip(a, b))
-- 
2.43.0


From ff658faca5cf1676ead23288af7ee2724ed174e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:13:16 +0000
Subject: [PATCH 21/25] fix: min-max histogram plots the maxima, not the means

In CycleCount.plot_histogram(plot_type="min-max") x was overwritten with
the minima before y was computed from it, so that the ordinate held
min + range/2, that is the mean stress, instead of the maximum.
---
 py_fatigue/cycle_count/cycle_count.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/py_fatigue/cycle_count/cycle_count.py b/py_fatigue/cycle_count/cycle_count.py
index b56e9f3..2a33a46 100644
--- a/py_fatigue/cycle_count/cycle_count.py
+++ b/py_fatigue/cycle_count/cycle_count.py
@@ -1318,8 +1318,7 @@ class CycleCount:
             e_msg = f"Invalid plot type. Must be one of {plot_types}."
             raise ValueError(e_msg)
         if plot_type == "min-max":
-            x = x - y / 2
-            y = x + y / 2
+            x, y = x - y / 2, x + y / 2
             bins = bins if bins is not None else 50
         if "counts-range" in plot_type:
             sor = sorted(
-- 
2.43.0


From b6aef9b3d043efd7ddeb027e753ec79ad93e3ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:13:16 +0000
Subject: [PATCH 22/25] fix: keep plain numbers in the bin settings of summed
 cycle counts

np.min and np.max over two integer settings (the default mean bin width
is 10) return np.int64, which as_dict() passed on to the export, and
json.dumps refuses it. The builtins keep the numbers the user gave.
---
 py_fatigue/cycle_count/cycle_count.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/py_fatigue/cycle_count/cycle_count.py b/py_fatigue/cycle_count/cycle_count.py
index 2a33a46..15883f1 100644
--- a/py_fatigue/cycle_count/cycle_count.py
+++ b/py_fatigue/cycle_count/cycle_count.py
@@ -1682,11 +1682,11 @@ def _handling_different_bins_in_sum(
     """
     if self_.mean_bin_width is not None:
         if other_.mean_bin_width is not None:
-            added_mean_bin_lower_bound = np.min(
-                [self_.mean_bin_lower_bound, other_.mean_bin_lower_bound]
+            added_mean_bin_lower_bound = min(
+                self_.mean_bin_lower_bound, other_.mean_bin_lower_bound
             )
-            added_mean_bin_width = np.max(
-                [self_.mean_bin_width, other_.mean_bin_width]
+            added_mean_bin_width = max(
+                self_.mean_bin_width, other_.mean_bin_width
             )
         else:
             added_mean_bin_lower_bound = self_.mean_bin_lower_bound
@@ -1695,12 +1695,10 @@ def _handling_different_bins_in_sum(
         added_mean_bin_lower_bound = None
         added_mean_bin_width = None
 
-    added_range_bin_lower_bound = np.min(
-        [self_.range_bin_lower_bound, other_.range_bin_lower_bound]
-    )
-    added_range_bin_width = np.max(
-        [self_.range_bin_width, other_.range_bin_width]
+    added_range_bin_lower_bound = min(
+        self_.range_bin_lower_bound, other_.range_bin_lower_bound
     )
+    added_range_bin_width = max(self_.range_bin_width, other_.range_bin_width)
 
     return (
         added_mean_bin_lower_bound,
-- 
2.43.0


From 3f9898c12bfa6295d1e8f812eec2e1c8d1ff03ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:31:16 +0000
Subject: [PATCH 23/25] fix: leave cycles of infinite life out of the
 Manson-Halford rule

Their life ratios are inf/inf or 0 and turned the damage into NaN or 1.
---
 py_fatigue/damage/stress_life.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/py_fatigue/damage/stress_life.py b/py_fatigue/damage/stress_life.py
index df7453e..80ee30e 100644
--- a/py_fatigue/damage/stress_life.py
+++ b/py_fatigue/damage/stress_life.py
@@ -721,8 +721,14 @@ def calc_nonlinear_damage(
             warnings.formatwarning = py_fatigue_formatwarning
             warnings.warn("".join(w_msg), UserWarning)
             ns.base_exponent = 0.4
+        cycles_to_failure = sn_curve.get_cycles(stress_range)
+        # Cycles below the endurance do no damage and have no life ratio
+        damaging = np.isfinite(cycles_to_failure)
+        if not np.any(damaging):
+            return 0.0
+        damage_per_cycle = damage_per_cycle[damaging]
         damage_exp = calc_manson_halford_exponents(
-            sn_curve.get_cycles(stress_range), ns.base_exponent
+            cycles_to_failure[damaging], ns.base_exponent
         )
     if damage_rule.lower() == "leve":
         if "base_exponent" not in kwargs:
-- 
2.43.0


From ab8ca1f27ce0b921b8659d77b8d2ba4aab040151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:31:16 +0000
Subject: [PATCH 24/25] fix: refuse cycle units that are only part of a Paris
 curve's unit
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

N was accepted for N/mm √mm, and mm for MPa √mm.
---
 py_fatigue/damage/crack_growth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_fatigue/damage/crack_growth.py b/py_fatigue/damage/crack_growth.py
index 28f1392..a358f37 100644
--- a/py_fatigue/damage/crack_growth.py
+++ b/py_fatigue/damage/crack_growth.py
@@ -399,7 +399,7 @@ def get_sif(
 
 def _check_units(unit: str, cg_unit: str) -> None:
     """Refuse cycles whose unit is not the stress unit of the curve"""
-    if not re.search(rf"(?<!\w){re.escape(unit)}(?!\w)", cg_unit):
+    if not re.search(rf"(?<![\w/√^]){re.escape(unit)}(?![\w/^])", cg_unit):
         e_msg = (
             f"Cycle count unit ({unit}) and crack growth "
             f"curve unit ({cg_unit}) are not compatible."
-- 
2.43.0


From 7b02154e4f6dbea4067ef751850561e27f5414f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:31:16 +0000
Subject: [PATCH 25/25] fix: accept rows without cycles in express crack growth

Their number of blocks was taken from log10(0), an OverflowError.
---
 py_fatigue/damage/crack_growth.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/py_fatigue/damage/crack_growth.py b/py_fatigue/damage/crack_growth.py
index a358f37..b272acf 100644
--- a/py_fatigue/damage/crack_growth.py
+++ b/py_fatigue/damage/crack_growth.py
@@ -481,7 +481,8 @@ def get_crack_growth(
     if np.max(cycle_count.count_cycle) > 1:
         if express_mode:
             splts = [
-                10 ** int(np.log10(cycle)) for cycle in cycle_count.count_cycle
+                10 ** int(np.log10(max(cycle, 1)))
+                for cycle in cycle_count.count_cycle
             ]
         else:
             splts = [int(cycle) for cycle in cycle_count.count_cycle]
@@ -607,7 +608,7 @@ class CrackGrowth:
         if np.max(self._obj["count_cycle"]) > 1:
             if express_mode:
                 splts = [
-                    10 ** int(np.log10(cycle))
+                    10 ** int(np.log10(max(cycle, 1)))
                     for cycle in self._obj["count_cycle"].values
                 ]
             else:
-- 
2.43.0

