From 1190966aaa3441c1928a10d367d2dc81d18815e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:49 +0000
Subject: [PATCH 001/159] fix: OneDSlicer last bin includes its right edge, as
 documented

The visit at the upper limit of the binned range was never delivered.
---
 rubin_sim/maf/slicers/one_d_slicer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/maf/slicers/one_d_slicer.py b/rubin_sim/maf/slicers/one_d_slicer.py
index 55d091d..85e7e50 100644
--- a/rubin_sim/maf/slicers/one_d_slicer.py
+++ b/rubin_sim/maf/slicers/one_d_slicer.py
@@ -153,9 +153,10 @@ class OneDSlicer(BaseSlicer):
         data_sorted = sim_data[self.slice_col_name][indxs]
 
         # Setting up slices such that left_edge <= data < right_edge
-        # in each slice.
+        # in each slice, except that the last slice includes its right_edge.
         left = np.searchsorted(data_sorted, self.bins[0:-1], "left")
         right = np.searchsorted(data_sorted, self.bins[1:], "left")
+        right[-1:] = np.searchsorted(data_sorted, self.bins[-1], "right")
 
         self.sim_idxs = [indxs[le:ri] for le, ri in zip(left, right)]
 
-- 
2.43.0


From 12492586b6589b715cfae8e0d42398857d927e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:49 +0000
Subject: [PATCH 002/159] fix: OneDSlicer warning about redundant bin arguments
 raised AttributeError

---
 rubin_sim/maf/slicers/one_d_slicer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/slicers/one_d_slicer.py b/rubin_sim/maf/slicers/one_d_slicer.py
index 85e7e50..401707b 100644
--- a/rubin_sim/maf/slicers/one_d_slicer.py
+++ b/rubin_sim/maf/slicers/one_d_slicer.py
@@ -66,7 +66,7 @@ class OneDSlicer(BaseSlicer):
         # Forget binmin/max/stepsize if bins was set
         if self.bins is not None:
             if bin_min is not None or bin_max is not None or bin_size is not None:
-                warnings.warning(
+                warnings.warn(
                     f"Both bins and one of the bin_min/bin_max/bin_size was specified. "
                     f"Using bins ({self.bins} values only."
                 )
-- 
2.43.0


From 0eb3413a9d10284a9a82ce6865e50205564bd959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:12 +0000
Subject: [PATCH 003/159] fix: TimeIntervalSlicer assigns visits to the
 interval which contains them

Visits went to the following interval (and those in the last interval were
lost), empty intervals were returned as a list holding an empty list, and
visits from a previous setup were kept.
---
 rubin_sim/maf/slicers/time_interval_slicers.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/maf/slicers/time_interval_slicers.py b/rubin_sim/maf/slicers/time_interval_slicers.py
index e5cca06..96878c8 100644
--- a/rubin_sim/maf/slicers/time_interval_slicers.py
+++ b/rubin_sim/maf/slicers/time_interval_slicers.py
@@ -64,16 +64,17 @@ class TimeIntervalSlicer(BaseSlicer):
     def setup_slicer(self, sim_data, maps=None):
         visit_mjds = sim_data[self.mjd_column_name]
         start_mjd = np.floor(np.min(visit_mjds)).astype(int)
-        end_mjd = np.ceil(np.max(visit_mjds)).astype(int)
+        end_mjd = np.floor(np.max(visit_mjds)).astype(int) + 1
         interval_days = self.interval_seconds / (24 * 60 * 60.0)
 
         mjd_bin_edges = np.arange(start_mjd, end_mjd + interval_days, interval_days)
 
+        self.sim_idxs.clear()
         self.sim_idxs.update(
             pd.DataFrame(
                 {
                     "visit_idx": np.arange(len(visit_mjds)),
-                    "sid": np.digitize(visit_mjds, mjd_bin_edges),
+                    "sid": np.digitize(visit_mjds, mjd_bin_edges) - 1,
                 }
             )
             .groupby("sid")
@@ -95,7 +96,10 @@ class TimeIntervalSlicer(BaseSlicer):
 
             try:
                 _ = idxs[0]
-            except (TypeError, IndexError):
+            except IndexError:
+                # No visits in this interval.
+                idxs = []
+            except TypeError:
                 idxs = [idxs]
 
             slice_points = {
-- 
2.43.0


From c6019044ad51317d570936e25ca313e27588c0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:12 +0000
Subject: [PATCH 004/159] fix: VisitIntervalSlicer slice point describes the
 visit in the slice

For visits not in time order, the time and duration of a slice point belonged
to another visit; the slice was a scalar record instead of a one-visit slice.
---
 rubin_sim/maf/slicers/time_interval_slicers.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/rubin_sim/maf/slicers/time_interval_slicers.py b/rubin_sim/maf/slicers/time_interval_slicers.py
index 96878c8..36443b9 100644
--- a/rubin_sim/maf/slicers/time_interval_slicers.py
+++ b/rubin_sim/maf/slicers/time_interval_slicers.py
@@ -270,16 +270,18 @@ class VisitIntervalSlicer(TimeIntervalSlicer):
 
         @wraps(self._slice_sim_data)
         def _slice_sim_data(islice):  # pylint: disable=invalid-name
-            idxs = self.sim_idxs[islice]
+            # Visits are returned in time order, with the id (row) which
+            # matches the order of the slice_points.
+            sid = self.sim_idxs[islice]
             slice_points = {
-                "sid": [idxs],
-                "mjd": self.slice_points["mjd"][islice],
-                "duration": self.slice_points["duration"][islice],
+                "sid": sid,
+                "mjd": self.slice_points["mjd"][sid],
+                "duration": self.slice_points["duration"][sid],
             }
             for column_name in self.extra_column_names:
-                slice_points[column_name] = self.slice_points[column_name]
+                slice_points[column_name] = self.slice_points[column_name][sid]
 
-            return {"idxs": idxs, "slice_point": slice_points}
+            return {"idxs": [sid], "slice_point": slice_points}
 
         setattr(self, "_slice_sim_data", _slice_sim_data)
 
-- 
2.43.0


From 07374290db07b8de2658f282f0ba4bdc174997b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:51 +0000
Subject: [PATCH 005/159] fix: NDSlicer equality compares columns and all bins,
 also before setup

Comparing slicers which were not set up (as when grouping bundles) raised
KeyError, and only the first few bins were compared.
---
 rubin_sim/maf/slicers/nd_slicer.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/rubin_sim/maf/slicers/nd_slicer.py b/rubin_sim/maf/slicers/nd_slicer.py
index 91c9db1..be1f4ec 100644
--- a/rubin_sim/maf/slicers/nd_slicer.py
+++ b/rubin_sim/maf/slicers/nd_slicer.py
@@ -136,12 +136,17 @@ class NDSlicer(BaseSlicer):
 
     def __eq__(self, other_slicer):
         """Evaluate if grids are equivalent."""
-        if isinstance(other_slicer, NDSlicer):
-            if other_slicer.n_d != self.n_d:
-                return False
-            for i in range(self.n_d):
-                if not np.array_equal(other_slicer.slice_points["bins"][i], self.slice_points["bins"][i]):
-                    return False
-            return True
-        else:
+        if not isinstance(other_slicer, NDSlicer):
+            return False
+        if other_slicer.n_d != self.n_d:
+            return False
+        if self.n_d is not None and list(other_slicer.slice_col_list) != list(self.slice_col_list):
+            return False
+        if ("bins" in self.slice_points) and ("bins" in other_slicer.slice_points):
+            return np.array_equal(other_slicer.slice_points["bins"], self.slice_points["bins"])
+        if ("bins" in self.slice_points) or ("bins" in other_slicer.slice_points):
             return False
+        # Neither has been set up with data yet, so compare the bins requested.
+        if isinstance(self.bins_list, (int, float)) or isinstance(other_slicer.bins_list, (int, float)):
+            return np.array_equal(self.bins_list, other_slicer.bins_list)
+        return all(np.array_equal(b1, b2) for b1, b2 in zip(self.bins_list, other_slicer.bins_list))
-- 
2.43.0


From 3846de4b66499ffb7c64a14db89f5594f34c7625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:10 +0000
Subject: [PATCH 006/159] fix: comparing time interval slicers which are not
 set up raised KeyError

---
 rubin_sim/maf/slicers/time_interval_slicers.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rubin_sim/maf/slicers/time_interval_slicers.py b/rubin_sim/maf/slicers/time_interval_slicers.py
index 36443b9..fe5363a 100644
--- a/rubin_sim/maf/slicers/time_interval_slicers.py
+++ b/rubin_sim/maf/slicers/time_interval_slicers.py
@@ -114,9 +114,16 @@ class TimeIntervalSlicer(BaseSlicer):
 
     def __eq__(self, other_slicer):
         """Evaluate if slicers are equivalent."""
+        if self is other_slicer:
+            return True
+
         if not isinstance(other_slicer, self.__class__):
             return False
 
+        if "sid" not in self.slice_points or "sid" not in other_slicer.slice_points:
+            # Slicers which are not set up have no intervals to compare.
+            return False
+
         for key in ["sid", "mjd", "duration"]:
             if not np.array_equal(other_slicer.slice_points[key], self.slice_points[key]):
                 return False
-- 
2.43.0


From bef939dca0e8c9881e7e361468056ebc7d2da259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:04 +0000
Subject: [PATCH 007/159] fix: do not group a bundle with a set containing an
 incompatible bundle

A bundle compatible with the first member of a set was added to it even if
another member was not compatible, and could be added to several sets.
---
 rubin_sim/maf/metric_bundles/metric_bundle_group.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metric_bundles/metric_bundle_group.py b/rubin_sim/maf/metric_bundles/metric_bundle_group.py
index bdb893b..b088e03 100644
--- a/rubin_sim/maf/metric_bundles/metric_bundle_group.py
+++ b/rubin_sim/maf/metric_bundles/metric_bundle_group.py
@@ -200,10 +200,12 @@ class MetricBundleGroup:
                             # stop and go on to the
                             # next subset list.
                             break
-                    # Otherwise, we reached the end of the subset
+                if compatible:
+                    # We reached the end of the subset
                     # and they were all compatible.
                     found_compatible = True
                     compatible_list.append(k)
+                    break
             if not found_compatible:
                 # Didn't find a pre-existing compatible set; make a new one.
                 compatible_lists.append(
-- 
2.43.0


From 1caeca65bb3316a887ba3238386d22daaba9fc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:49 +0000
Subject: [PATCH 008/159] fix: compare the maps of bundles when checking
 compatibility

list.sort() returns None, so maps were never compared, and maps of the same
kind with different settings were taken to be the same.
---
 rubin_sim/maf/maps/base_map.py                      | 10 ++++++++--
 rubin_sim/maf/metric_bundles/metric_bundle_group.py |  2 +-
 rubin_sim/maf/metric_bundles/mo_metric_bundle.py    |  2 +-
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/rubin_sim/maf/maps/base_map.py b/rubin_sim/maf/maps/base_map.py
index deea892..cd23e1c 100644
--- a/rubin_sim/maf/maps/base_map.py
+++ b/rubin_sim/maf/maps/base_map.py
@@ -47,10 +47,16 @@ class BaseMap(metaclass=MapsRegistry):
         self.keynames = ["newkey"]
 
     def __eq__(self, othermap):
-        return self.keynames == othermap.keynames
+        if self.__class__ != othermap.__class__ or self.keynames != othermap.keynames:
+            return False
+        # The same kind of map could still be configured differently.
+        for key, val in vars(self).items():
+            if isinstance(val, (str, int, float, bool)) and vars(othermap).get(key) != val:
+                return False
+        return True
 
     def __ne__(self, othermap):
-        return self.keynames != othermap.keynames
+        return not self == othermap
 
     def __lt__(self, othermap):
         return self.keynames < othermap.keynames
diff --git a/rubin_sim/maf/metric_bundles/metric_bundle_group.py b/rubin_sim/maf/metric_bundles/metric_bundle_group.py
index b088e03..fec31d2 100644
--- a/rubin_sim/maf/metric_bundles/metric_bundle_group.py
+++ b/rubin_sim/maf/metric_bundles/metric_bundle_group.py
@@ -165,7 +165,7 @@ class MetricBundleGroup:
             return False
         if metric_bundle1.slicer != metric_bundle2.slicer:
             return False
-        if metric_bundle1.maps_list.sort() != metric_bundle2.maps_list.sort():
+        if sorted(metric_bundle1.maps_list) != sorted(metric_bundle2.maps_list):
             return False
         for stacker in metric_bundle1.stacker_list:
             for stacker2 in metric_bundle2.stacker_list:
diff --git a/rubin_sim/maf/metric_bundles/mo_metric_bundle.py b/rubin_sim/maf/metric_bundles/mo_metric_bundle.py
index 5a51260..edcd4e6 100644
--- a/rubin_sim/maf/metric_bundles/mo_metric_bundle.py
+++ b/rubin_sim/maf/metric_bundles/mo_metric_bundle.py
@@ -413,7 +413,7 @@ class MoMetricBundleGroup:
             return False
         if metric_bundle1.slicer != metric_bundle2.slicer:
             return False
-        if metric_bundle1.maps_list.sort() != metric_bundle2.maps_list.sort():
+        if sorted(metric_bundle1.maps_list) != sorted(metric_bundle2.maps_list):
             return False
         for stacker in metric_bundle1.stacker_list:
             for stacker2 in metric_bundle2.stacker_list:
-- 
2.43.0


From df1ea65e486f43b3d249ec3657d52bc1af763969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:49 +0000
Subject: [PATCH 009/159] fix: bundles whose stackers set the same column in
 different ways are not compatible

---
 rubin_sim/maf/metric_bundles/metric_bundle_group.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metric_bundles/metric_bundle_group.py b/rubin_sim/maf/metric_bundles/metric_bundle_group.py
index fec31d2..337f9b6 100644
--- a/rubin_sim/maf/metric_bundles/metric_bundle_group.py
+++ b/rubin_sim/maf/metric_bundles/metric_bundle_group.py
@@ -169,8 +169,11 @@ class MetricBundleGroup:
             return False
         for stacker in metric_bundle1.stacker_list:
             for stacker2 in metric_bundle2.stacker_list:
-                # If the stackers have different names, that's OK,
+                # If the stackers add different columns, that's OK,
                 # and if they are identical, that's ok.
+                if (set(stacker.cols_added) & set(stacker2.cols_added)) and (stacker != stacker2):
+                    return False
+                # Same stacker, configured differently.
                 if (stacker.__class__.__name__ == stacker2.__class__.__name__) & (stacker != stacker2):
                     return False
         # But if we got this far, everything matches.
-- 
2.43.0


From 55ed3a74a07540ecc8086b3de2b20fa8b7250e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:49 +0000
Subject: [PATCH 010/159] fix: keep reduced bundles of same-named metrics on
 different slicers

Within one constraint, the second reduced bundle replaced the first one in the
group, so the first got no summary statistics.
---
 rubin_sim/maf/metric_bundles/metric_bundle_group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metric_bundles/metric_bundle_group.py b/rubin_sim/maf/metric_bundles/metric_bundle_group.py
index 337f9b6..e55b3c9 100644
--- a/rubin_sim/maf/metric_bundles/metric_bundle_group.py
+++ b/rubin_sim/maf/metric_bundles/metric_bundle_group.py
@@ -589,7 +589,7 @@ class MetricBundleGroup:
                     # Add the new metricBundle to our metricBundleGroup
                     # dictionary.
                     name = newmetricbundle.metric.name
-                    if name in self.bundle_dict:
+                    if name in self.bundle_dict or name in reduce_bundle_dict:
                         name = newmetricbundle.file_root
                     reduce_bundle_dict[name] = newmetricbundle
                     if self.save_early:
-- 
2.43.0


From 2b88983e99e90f4e6376f389e09f107475174d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:49 +0000
Subject: [PATCH 011/159] fix: MetricBundle accepts a single map, as it does a
 single stacker

---
 rubin_sim/maf/metric_bundles/metric_bundle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metric_bundles/metric_bundle.py b/rubin_sim/maf/metric_bundles/metric_bundle.py
index 22a0dc0..b2b00e2 100644
--- a/rubin_sim/maf/metric_bundles/metric_bundle.py
+++ b/rubin_sim/maf/metric_bundles/metric_bundle.py
@@ -155,7 +155,7 @@ class MetricBundle:
         # Set the 'maps' to apply to the slicer, if applicable.
         if maps_list is not None:
             if isinstance(maps_list, maps.BaseMap):
-                self.known_cols = [
+                self.maps_list = [
                     maps_list,
                 ]
             else:
-- 
2.43.0


From 2b081b3b127e05dd7c4632e535e5bb70f32b5f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:49 +0000
Subject: [PATCH 012/159] fix: MetricBundle accepts a single plotter, in
 set_plot_funcs and plot

---
 rubin_sim/maf/metric_bundles/metric_bundle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/maf/metric_bundles/metric_bundle.py b/rubin_sim/maf/metric_bundles/metric_bundle.py
index b2b00e2..0a411c4 100644
--- a/rubin_sim/maf/metric_bundles/metric_bundle.py
+++ b/rubin_sim/maf/metric_bundles/metric_bundle.py
@@ -368,7 +368,7 @@ class MetricBundle:
             The plotter or plotters to use to generate visuals for this metric.
         """
         if plot_funcs is not None:
-            if plot_funcs is isinstance(plot_funcs, plots.BasePlotter):
+            if isinstance(plot_funcs, plots.BasePlotter):
                 self.plot_funcs = [plot_funcs]
             else:
                 self.plot_funcs = []
@@ -808,7 +808,7 @@ class MetricBundle:
         made_plots = {}
         if plot_func is not None:
             fig = plot_handler.plot(plot_func, outfile_suffix=outfile_suffix)
-            made_plots[plot_func.plotType] = fig
+            made_plots[plot_func.plot_type] = fig
         else:
             for plot_func in self.plot_funcs:
                 fig = plot_handler.plot(plot_func, outfile_suffix=outfile_suffix)
-- 
2.43.0


From 97eb92d2563fba17f99cd340171bac779c4493c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:49 +0000
Subject: [PATCH 013/159] fix: MetricBundle.output_json passed an unknown
 keyword to the slicer

---
 rubin_sim/maf/metric_bundles/metric_bundle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metric_bundles/metric_bundle.py b/rubin_sim/maf/metric_bundles/metric_bundle.py
index 0a411c4..8c3ccf2 100644
--- a/rubin_sim/maf/metric_bundles/metric_bundle.py
+++ b/rubin_sim/maf/metric_bundles/metric_bundle.py
@@ -549,7 +549,7 @@ class MetricBundle:
         io = self.slicer.output_json(
             self.metric_values,
             metric_name=self.metric.name,
-            simDataName=self.run_name,
+            sim_data_name=self.run_name,
             info_label=self.info_label,
             plot_dict=self.plot_dict,
         )
-- 
2.43.0


From 11692886c1f8ea8a9843e4d6478b1e9a7c51c3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:04 +0000
Subject: [PATCH 014/159] fix: run a stacker before the stackers which need its
 columns

Stackers found to be required by another stacker were run after it.
---
 rubin_sim/maf/metric_bundles/metric_bundle.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metric_bundles/metric_bundle.py b/rubin_sim/maf/metric_bundles/metric_bundle.py
index 8c3ccf2..aaeb512 100644
--- a/rubin_sim/maf/metric_bundles/metric_bundle.py
+++ b/rubin_sim/maf/metric_bundles/metric_bundle.py
@@ -311,7 +311,9 @@ class MetricBundle:
             for s in new_stackers:
                 new_stacker = s()
                 new_cols += new_stacker.cols_req
-                self.stacker_list.append(new_stacker)
+                # Run before the stackers already listed, which need
+                # the columns it adds.
+                self.stacker_list.insert(0, new_stacker)
             new_cols = set(new_cols)
             new_stackers = set()
             for col in new_cols:
-- 
2.43.0


From edf79dd2135cec81ce981af17298e9a39c3240ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:34 +0000
Subject: [PATCH 015/159] fix: mask of vector metrics on a subset slicer

The (per slice point) slicer mask was spread over the flattened values.
---
 rubin_sim/maf/metric_bundles/metric_bundle.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metric_bundles/metric_bundle.py b/rubin_sim/maf/metric_bundles/metric_bundle.py
index aaeb512..4a91b30 100644
--- a/rubin_sim/maf/metric_bundles/metric_bundle.py
+++ b/rubin_sim/maf/metric_bundles/metric_bundle.py
@@ -237,7 +237,8 @@ class MetricBundle:
             fill_value=self.slicer.badval,
         )
         if hasattr(self.slicer, "mask"):
-            self.metric_values.mask = self.slicer.mask
+            # The slicer mask applies to all values at a slice_point.
+            self.metric_values[self.slicer.mask] = ma.masked
 
     def _build_metadata(self, info_label, metadata=None):
         """If no info_label is provided, process the constraint
-- 
2.43.0


From 0030a7b60e0deb9a8ac58021d87fe7333ef12d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:01 +0000
Subject: [PATCH 016/159] fix: sky slicers which differ in units, caching or
 camera settings are not the same

Their comparison ignored these settings, so bundles with different slicers ran together,
and a slicer restored from a file lost them.
---
 rubin_sim/maf/slicers/base_spatial_slicer.py   | 11 +++++++++++
 rubin_sim/maf/slicers/healpix_slicer.py        |  9 ++++++++-
 rubin_sim/maf/slicers/healpix_subset_slicer.py |  3 ++-
 rubin_sim/maf/slicers/user_points_slicer.py    | 12 +++++++++---
 4 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/rubin_sim/maf/slicers/base_spatial_slicer.py b/rubin_sim/maf/slicers/base_spatial_slicer.py
index cc2f4fc..d107f84 100644
--- a/rubin_sim/maf/slicers/base_spatial_slicer.py
+++ b/rubin_sim/maf/slicers/base_spatial_slicer.py
@@ -183,6 +183,17 @@ class BaseSpatialSlicer(BaseSlicer):
 
         setattr(self, "_slice_sim_data", _slice_sim_data)
 
+    def _same_camera(self, other_slicer):
+        """Does the other slicer use the same coordinate units and footprint?"""
+        if other_slicer.latLonDeg != self.latLonDeg:
+            return False
+        if self.use_camera:
+            return (
+                other_slicer.camera_radius == self.camera_radius
+                and other_slicer.camera_footprint_file == self.camera_footprint_file
+            )
+        return True
+
     def _setupLSSTCamera(self):
         """If we want to include the camera chip gaps, etc."""
         self.camera = simsUtils.LsstCameraFootprint(
diff --git a/rubin_sim/maf/slicers/healpix_slicer.py b/rubin_sim/maf/slicers/healpix_slicer.py
index 12a6323..5f54076 100644
--- a/rubin_sim/maf/slicers/healpix_slicer.py
+++ b/rubin_sim/maf/slicers/healpix_slicer.py
@@ -137,7 +137,14 @@ class HealpixSlicer(BaseSpatialSlicer):
             "nside": nside,
             "lon_col": lon_col,
             "lat_col": lat_col,
+            "lat_lon_deg": lat_lon_deg,
             "radius": radius,
+            "use_cache": use_cache,
+            "use_camera": use_camera,
+            "camera_radius": camera_radius,
+            "camera_footprint_file": camera_footprint_file,
+            "rot_sky_pos_col_name": rot_sky_pos_col_name,
+            "badval": badval,
         }
         self.use_cache = use_cache
         if use_cache:
@@ -173,7 +180,7 @@ class HealpixSlicer(BaseSpatialSlicer):
                             if other_slicer.rotSkyPosColName == self.rotSkyPosColName:
                                 if np.all(other_slicer.shape == self.shape):
                                     if other_slicer.use_cache == self.use_cache:
-                                        result = True
+                                        result = self._same_camera(other_slicer)
         return result
 
     def _pix2radec(self, islice):
diff --git a/rubin_sim/maf/slicers/healpix_subset_slicer.py b/rubin_sim/maf/slicers/healpix_subset_slicer.py
index 8d7a74a..a432715 100644
--- a/rubin_sim/maf/slicers/healpix_subset_slicer.py
+++ b/rubin_sim/maf/slicers/healpix_subset_slicer.py
@@ -202,7 +202,8 @@ class HealpixSubsetSlicer(HealpixSlicer):
                             if other_slicer.use_camera == self.use_camera:
                                 if other_slicer.rotSkyPosColName == self.rotSkyPosColName:
                                     if np.all(other_slicer.shape == self.shape):
-                                        result = True
+                                        if other_slicer.use_cache == self.use_cache:
+                                            result = self._same_camera(other_slicer)
         return result
 
     def __iter__(self):
diff --git a/rubin_sim/maf/slicers/user_points_slicer.py b/rubin_sim/maf/slicers/user_points_slicer.py
index 8f02ff0..6307010 100644
--- a/rubin_sim/maf/slicers/user_points_slicer.py
+++ b/rubin_sim/maf/slicers/user_points_slicer.py
@@ -109,11 +109,17 @@ class UserPointsSlicer(BaseSpatialSlicer):
         self.nslice = np.size(ra)
         self.shape = self.nslice
         self.slicer_init = {
-            "ra": ra,
-            "dec": dec,
+            "ra": np.degrees(ra),
+            "dec": np.degrees(dec),
             "lon_col": lon_col,
             "lat_col": lat_col,
+            "lat_lon_deg": lat_lon_deg,
             "radius": radius,
+            "use_camera": use_camera,
+            "camera_radius": camera_radius,
+            "camera_footprint_file": camera_footprint_file,
+            "rot_sky_pos_col_name": rot_sky_pos_col_name,
+            "badval": badval,
         }
         self.plot_funcs = [BaseSkyMap, BaseHistogram]
 
@@ -137,5 +143,5 @@ class UserPointsSlicer(BaseSpatialSlicer):
                             if other_slicer.use_camera == self.use_camera:
                                 if other_slicer.rotSkyPosColName == self.rotSkyPosColName:
                                     if np.array_equal(other_slicer.shape, self.shape):
-                                        result = True
+                                        result = self._same_camera(other_slicer)
         return result
-- 
2.43.0


From e27479592dbe4398625b892f201bf4fc8fa63124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:09 +0000
Subject: [PATCH 017/159] fix: a stacker replacing a visit column changed it
 for other bundles

The columns set for one set of bundles were passed on to the next, and a bundle using the
column as it is in the visits was run together with the one replacing it.
---
 .../maf/metric_bundles/metric_bundle_group.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/rubin_sim/maf/metric_bundles/metric_bundle_group.py b/rubin_sim/maf/metric_bundles/metric_bundle_group.py
index e55b3c9..5e0e10f 100644
--- a/rubin_sim/maf/metric_bundles/metric_bundle_group.py
+++ b/rubin_sim/maf/metric_bundles/metric_bundle_group.py
@@ -176,6 +176,15 @@ class MetricBundleGroup:
                 # Same stacker, configured differently.
                 if (stacker.__class__.__name__ == stacker2.__class__.__name__) & (stacker != stacker2):
                     return False
+        # One bundle could replace a column that the other uses as it is.
+        for bundle, other in (
+            (metric_bundle1, metric_bundle2),
+            (metric_bundle2, metric_bundle1),
+        ):
+            cols_set = {col for stacker in bundle.stacker_list for col in stacker.cols_added}
+            cols_own = {col for stacker in other.stacker_list for col in stacker.cols_added}
+            if (cols_set - cols_own) & set(other.db_cols):
+                return False
         # But if we got this far, everything matches.
         return True
 
@@ -440,17 +449,19 @@ class MetricBundleGroup:
             if m not in uniq_maps:
                 uniq_maps.append(m)
 
-        # Run stackers.
+        # Run stackers, without passing their columns on to the next
+        # set of bundles.
+        sim_data = self.sim_data
         for stacker in uniq_stackers:
             # Note that stackers will clobber previously existing columns
-            self.sim_data = stacker.run(self.sim_data, override=True)
+            sim_data = stacker.run(sim_data, override=True)
 
         # Pull out one of the slicers to use as our 'slicer'.
         # This will be forced back into all of the metricBundles
         # at the end (so that they track the same info_label such as the
         # slice_points, in case the same actual object wasn't used).
         slicer = list(b_dict.values())[0].slicer
-        slicer.setup_slicer(self.sim_data, maps=uniq_maps)
+        slicer.setup_slicer(sim_data, maps=uniq_maps)
         # Copy the slicer (after setup) back into the individual metricBundles.
         if slicer.slicer_name != "HealpixSlicer" or slicer.slicer_name != "UniSlicer":
             for b in b_dict.values():
@@ -481,7 +492,7 @@ class MetricBundleGroup:
 
         for slice_i in slicer_iter:
             i = slice_i["slice_point"]["sid"]
-            slicedata = self.sim_data[slice_i["idxs"]]
+            slicedata = sim_data[slice_i["idxs"]]
             if len(slicedata) == 0:
                 # No data at this slice_point. Mask data values.
                 for b in b_dict.values():
-- 
2.43.0


From 38f6536178c39f938caf5e15a6cca3568618dd88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:19 +0000
Subject: [PATCH 018/159] fix: MetricBundleGroup.read_all failed for metrics
 with reduce functions

---
 .../maf/metric_bundles/metric_bundle_group.py | 20 ++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/rubin_sim/maf/metric_bundles/metric_bundle_group.py b/rubin_sim/maf/metric_bundles/metric_bundle_group.py
index 5e0e10f..a445362 100644
--- a/rubin_sim/maf/metric_bundles/metric_bundle_group.py
+++ b/rubin_sim/maf/metric_bundles/metric_bundle_group.py
@@ -4,6 +4,7 @@ import os
 import sys
 import warnings
 from collections import OrderedDict
+from copy import deepcopy
 
 import matplotlib.pyplot as plt
 import numpy as np
@@ -796,8 +797,9 @@ class MetricBundleGroup:
             # with associated 'reduce' functions, and read those in too.
             if len(bundle.metric.reduce_funcs) > 0:
                 orig_metric_name = bundle.metric.name
-                for reduce_func in bundle.metric.reduce_funcs.values():
-                    reduce_name = orig_metric_name + "_" + reduce_func.__name__.replace("reduce", "")
+                orig_file_root = bundle.file_root
+                for reduce_func_name in bundle.metric.reduce_funcs:
+                    reduce_name = orig_metric_name + "_" + reduce_func_name
                     # Borrow the fileRoot in b (we'll reset it appropriately)
                     bundle.metric.name = reduce_name
                     bundle._build_file_root()
@@ -809,14 +811,14 @@ class MetricBundleGroup:
                         # display_dict exactly as they would have been made
                         # if you calculated the reduce metric from scratch.
                         newmetric_bundle = MetricBundle(
-                            metric=bundle.metric,
+                            metric=deepcopy(bundle.metric),
                             slicer=bundle.slicer,
                             constraint=bundle.constraint,
                             stacker_list=bundle.stacker_list,
                             run_name=bundle.run_name,
                             info_label=bundle.info_label,
-                            plot_dict=bundle.plotDict,
-                            display_dict=bundle.displayDict,
+                            plot_dict=bundle.plot_dict,
+                            display_dict=bundle.display_dict,
                             summary_metrics=bundle.summary_metrics,
                             maps_list=bundle.maps_list,
                             file_root=bundle.file_root,
@@ -827,7 +829,7 @@ class MetricBundleGroup:
                         newmetric_bundle.summary_values = tmp_bundle.summary_values
                         # Add the new metricBundle to metricBundleGroup dict.
                         name = newmetric_bundle.metric.name
-                        if name in self.bundle_dict:
+                        if name in self.bundle_dict or name in reduce_bundle_dict:
                             name = newmetric_bundle.file_root
                         reduce_bundle_dict[name] = newmetric_bundle
                         if self.verbose:
@@ -837,11 +839,11 @@ class MetricBundleGroup:
                             'Warning: file %s not found, bundle not restored ("reduce" metric).' % filename
                         )
 
-                    # Remove summaryMetrics from top level metricbundle.
-                    bundle.summary_metrics = []
                     # Update parent MetricBundle name.
                     bundle.metric.name = orig_metric_name
-                    bundle._build_file_root()
+                    bundle.file_root = orig_file_root
+                # Remove summaryMetrics from top level metricbundle.
+                bundle.summary_metrics = []
 
         # Add the reduce bundles into the bundleDict.
         self.bundle_dict.update(reduce_bundle_dict)
-- 
2.43.0


From 267e365ab531a176aada2fe9012a69e25b4871a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:19 +0000
Subject: [PATCH 019/159] fix: record the name of the file which
 MetricBundle.write wrote

With outfile_suffix, the results database pointed at a file which does not exist.
---
 rubin_sim/maf/metric_bundles/metric_bundle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/maf/metric_bundles/metric_bundle.py b/rubin_sim/maf/metric_bundles/metric_bundle.py
index 4a91b30..a5e32c4 100644
--- a/rubin_sim/maf/metric_bundles/metric_bundle.py
+++ b/rubin_sim/maf/metric_bundles/metric_bundle.py
@@ -538,7 +538,7 @@ class MetricBundle:
             summary_values=self.summary_values,
         )
         if results_db is not None:
-            self.write_db(results_db=results_db)
+            self.write_db(results_db=results_db, outfile_suffix=outfile_suffix)
 
     def output_json(self):
         """Set up and call the baseSlicer outputJSON method,
@@ -604,7 +604,7 @@ class MetricBundle:
             if "summary_values" in header:
                 self.summary_values = header["summary_values"]
         if self.info_label is None:
-            self._build_metadata()
+            self._build_metadata(None)
         path, head = os.path.split(filename)
         self.file_root = head.replace(".npz", "")
         self.set_plot_funcs(None)
-- 
2.43.0


From 48fe8e8a29b6b5b469af846b2e9c744f15b67f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:46 +0000
Subject: [PATCH 020/159] fix: JSON of integer values, of values without mask
 and of a masked single value

---
 rubin_sim/maf/slicers/base_slicer.py | 33 +++++++++++++++++-----------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/rubin_sim/maf/slicers/base_slicer.py b/rubin_sim/maf/slicers/base_slicer.py
index 4141858..13e55e3 100644
--- a/rubin_sim/maf/slicers/base_slicer.py
+++ b/rubin_sim/maf/slicers/base_slicer.py
@@ -282,7 +282,7 @@ class BaseSlicer(metaclass=SlicerRegistry):
             the data is [ [lon, lat, value], [lon, lat, value] ..].
         """
         # Bail if this is not a good data type for JSON.
-        if not (metric_values.dtype == "float") or (metric_values.dtype == "int"):
+        if not ((metric_values.dtype == "float") or (metric_values.dtype == "int")):
             warnings.warn("Cannot generate JSON.")
             io = StringIO()
             json.dump(["Cannot generate JSON for this file."], io)
@@ -329,6 +329,9 @@ class BaseSlicer(metaclass=SlicerRegistry):
         metric = []
         # If metric values is a masked array.
         if hasattr(metric_values, "mask"):
+            # Use python numbers, numpy integers do not work with JSON.
+            data = metric_values.data.tolist()
+            masks = ma.getmaskarray(metric_values)
             if "ra" in self.slice_points:
                 # Spatial slicer.
                 # Translate ra/dec to lon/lat in degrees and
@@ -336,8 +339,8 @@ class BaseSlicer(metaclass=SlicerRegistry):
                 for ra, dec, value, mask in zip(
                     self.slice_points["ra"],
                     self.slice_points["dec"],
-                    metric_values.data,
-                    metric_values.mask,
+                    data,
+                    masks,
                 ):
                     if not mask:
                         lon = ra * 180.0 / np.pi
@@ -346,32 +349,36 @@ class BaseSlicer(metaclass=SlicerRegistry):
             elif "bins" in self.slice_points:
                 # OneD slicer. Translate bins into bin/left and
                 # output with metric value.
+                bins = np.asarray(self.slice_points["bins"]).tolist()
                 for i in range(len(metric_values)):
-                    bin_left = self.slice_points["bins"][i]
-                    value = metric_values.data[i]
-                    mask = metric_values.mask[i]
+                    bin_left = bins[i]
+                    value = data[i]
+                    mask = masks[i]
                     if not mask:
                         metric.append([bin_left, value])
                     else:
                         metric.append([bin_left, 0])
-                metric.append([self.slice_points["bins"][i + 1], 0])
+                metric.append([bins[i + 1], 0])
             elif self.slicer_name == "UniSlicer":
-                metric.append([metric_values[0]])
+                if not masks[0]:
+                    metric.append([data[0]])
         # Else:
         else:
+            data = metric_values.tolist()
             if "ra" in self.slice_points:
-                for ra, dec, value in zip(self.slice_points["ra"], self.slice_points["dec"], metric_values):
+                for ra, dec, value in zip(self.slice_points["ra"], self.slice_points["dec"], data):
                     lon = ra * 180.0 / np.pi
                     lat = dec * 180.0 / np.pi
                     metric.append([lon, lat, value])
             elif "bins" in self.slice_points:
+                bins = np.asarray(self.slice_points["bins"]).tolist()
                 for i in range(len(metric_values)):
-                    bin_left = self.slice_points["bins"][i]
-                    value = metric_values[i]
+                    bin_left = bins[i]
+                    value = data[i]
                     metric.append([bin_left, value])
-                metric.append(self.slice_points["bins"][i + 1][0])
+                metric.append([bins[i + 1], 0])
             elif self.slicer_name == "UniSlicer":
-                metric.append([metric_values[0]])
+                metric.append([data[0]])
         # Write out JSON output.
         io = StringIO()
         json.dump([header, metric], io)
-- 
2.43.0


From 0bb2aaf08740ec4386f10dcc0dadff182a93d675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:46 +0000
Subject: [PATCH 021/159] fix: MovieSlicer could not be read back or compared
 before setup

---
 rubin_sim/maf/slicers/movie_slicer.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/rubin_sim/maf/slicers/movie_slicer.py b/rubin_sim/maf/slicers/movie_slicer.py
index abd9c25..4a59f1b 100644
--- a/rubin_sim/maf/slicers/movie_slicer.py
+++ b/rubin_sim/maf/slicers/movie_slicer.py
@@ -78,13 +78,21 @@ class MovieSlicer(BaseSlicer):
         self.bin_max = bin_max
         self.bin_size = bin_size
         self.cumulative = cumulative
-        if slice_col_units is None:
+        if slice_col_units is not None:
+            self.slice_col_units = slice_col_units
+        else:
             co = ColInfo()
             self.slice_col_units = co.get_units(self.slice_col_name)
         self.slicer_init = {
             "slice_col_name": self.slice_col_name,
             "slice_col_units": slice_col_units,
+            "bins": self.bins,
+            "bin_min": self.bin_min,
+            "bin_max": self.bin_max,
+            "bin_size": self.bin_size,
             "badval": badval,
+            "cumulative": self.cumulative,
+            "force_no_ffmpeg": force_no_ffmpeg,
         }
 
     def setup_slicer(self, sim_data, maps=None):
@@ -214,10 +222,16 @@ class MovieSlicer(BaseSlicer):
         """
         Evaluate if slicers are equivalent.
         """
-        if isinstance(other_slicer, MovieSlicer):
-            return np.array_equal(other_slicer.slice_points["bins"], self.slice_points["bins"])
-        else:
+        if self is other_slicer:
+            return True
+        if not isinstance(other_slicer, MovieSlicer):
+            return False
+        if self.slice_col_name != other_slicer.slice_col_name or self.cumulative != other_slicer.cumulative:
+            return False
+        if "bins" not in self.slice_points or "bins" not in other_slicer.slice_points:
+            # Slicers which are not set up have no bins to compare.
             return False
+        return np.array_equal(other_slicer.slice_points["bins"], self.slice_points["bins"])
 
     def make_movie(
         self,
-- 
2.43.0


From 28c9d05fff6cd0a4d5303bfb9ed095bb4640396d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:16 +0000
Subject: [PATCH 022/159] fix: moving object slicers restored from a file lost
 their H range and could not be compared

---
 rubin_sim/maf/slicers/mo_slicer.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/maf/slicers/mo_slicer.py b/rubin_sim/maf/slicers/mo_slicer.py
index 70b367d..af386f5 100644
--- a/rubin_sim/maf/slicers/mo_slicer.py
+++ b/rubin_sim/maf/slicers/mo_slicer.py
@@ -22,11 +22,16 @@ class MoObjSlicer(BaseSlicer):
     h_range : numpy.ndarray or None
         The H values to clone the orbital parameters over.
         If Hrange is None, will not clone orbits.
+    orbit_file, obs_file : `str` or None
+        Names of the files a slicer restored from disk was set up with.
+        These are not read: see setup_slicer.
     """
 
-    def __init__(self, h_range=None, verbose=True, badval=0):
+    def __init__(self, h_range=None, verbose=True, badval=0, orbit_file=None, obs_file=None):
         super(MoObjSlicer, self).__init__(verbose=verbose, badval=badval)
         self.Hrange = h_range
+        self.orbit_file = orbit_file
+        self.obs_file = obs_file
         self.slicer_init = {"h_range": h_range, "badval": badval}
         # Set default plot_funcs.
         self.plot_funcs = [
@@ -166,6 +171,8 @@ class MoObjSlicer(BaseSlicer):
         if isinstance(other_slicer, MoObjSlicer):
             if other_slicer.orbit_file == self.orbit_file:
                 if other_slicer.obs_file == self.obs_file:
-                    if np.array_equal(other_slicer.slice_points["H"], self.slice_points["H"]):
-                        result = True
+                    if "H" in self.slice_points and "H" in other_slicer.slice_points:
+                        result = np.array_equal(other_slicer.slice_points["H"], self.slice_points["H"])
+                    else:
+                        result = np.array_equal(other_slicer.Hrange, self.Hrange)
         return result
-- 
2.43.0


From c33130e0a521774c074890674085bee19d0f548c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:16 +0000
Subject: [PATCH 023/159] fix: MoObjSlicer found no observations of objects
 identified by text

Text columns are no longer of type object in current pandas.
---
 rubin_sim/maf/slicers/mo_slicer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/maf/slicers/mo_slicer.py b/rubin_sim/maf/slicers/mo_slicer.py
index af386f5..99a38b5 100644
--- a/rubin_sim/maf/slicers/mo_slicer.py
+++ b/rubin_sim/maf/slicers/mo_slicer.py
@@ -134,10 +134,10 @@ class MoObjSlicer(BaseSlicer):
         # Find the matching orbit.
         orb = self.orbits.iloc[idx]
         # Find the matching observations.
-        if self.obs["obj_id"].dtype == "object":
-            obs = self.obs.query('obj_id == "%s"' % (orb["obj_id"]))
+        if pd.api.types.is_numeric_dtype(self.obs["obj_id"]):
+            obs = self.obs[self.obs["obj_id"] == int(orb["obj_id"])]
         else:
-            obs = self.obs.query("obj_id == %d" % (orb["obj_id"]))
+            obs = self.obs[self.obs["obj_id"] == str(orb["obj_id"])]
         # Return the values for H to consider for metric.
         if self.Hrange is not None:
             Hvals = self.Hrange
-- 
2.43.0


From 36cd99ff30fa4ff3b4d15c0b7917e6af3d7abcbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:47 +0000
Subject: [PATCH 024/159] fix: ResultsDb changed the display dictionary passed
 in and dropped numpy summary values

---
 rubin_sim/maf/db/results_db.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/maf/db/results_db.py b/rubin_sim/maf/db/results_db.py
index f991889..adc12e4 100644
--- a/rubin_sim/maf/db/results_db.py
+++ b/rubin_sim/maf/db/results_db.py
@@ -494,7 +494,9 @@ class ResultsDb:
                     self.session.delete(d)
             else:
                 return
-        # Then go ahead and add new display_dict.
+        # Then go ahead and add new display_dict
+        # (without changing the dictionary which was passed in).
+        display_dict = dict(display_dict)
         for k in display_dict:
             if display_dict[k] is None:
                 display_dict[k] = "NULL"
@@ -607,11 +609,11 @@ class ResultsDb:
                 warnings.warn("Warning! Cannot save non-conforming summary statistic.")
         # Most summary statistics will be simple floats.
         else:
-            if isinstance(summary_value, float) or isinstance(summary_value, int):
+            if isinstance(summary_value, (float, int, np.floating, np.integer)):
                 summarystat = SummaryStatRow(
                     metric_id=metric_id,
                     summary_name=summary_name,
-                    summary_value=summary_value,
+                    summary_value=float(summary_value),
                 )
                 self.session.add(summarystat)
                 self.session.commit()
-- 
2.43.0


From bc289532e331c208fa987d1ec70513778800cb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:15 +0000
Subject: [PATCH 025/159] fix: add_run_to_database recorded and checked a path
 relative to the wrong directory

---
 rubin_sim/maf/db/tracking_db.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/rubin_sim/maf/db/tracking_db.py b/rubin_sim/maf/db/tracking_db.py
index e8a13ee..5563c09 100644
--- a/rubin_sim/maf/db/tracking_db.py
+++ b/rubin_sim/maf/db/tracking_db.py
@@ -282,7 +282,6 @@ def add_run_to_database(
     """
     trackingDb = TrackingDb(database=tracking_db_file)
 
-    maf_dir = os.path.relpath(maf_dir, start=os.path.dirname(trackingDb.tracking_db_dir))
     if not os.path.isdir(maf_dir):
         raise ValueError("There is no directory containing MAF outputs at %s." % (maf_dir))
 
-- 
2.43.0


From d91e291018afad40de6fe2014b0db3ca0a2dd024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:15 +0000
Subject: [PATCH 026/159] fix: gathering summaries failed on a directory
 without results, or without summary values

---
 rubin_sim/maf/run_comparison/gather_summaries.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/maf/run_comparison/gather_summaries.py b/rubin_sim/maf/run_comparison/gather_summaries.py
index 8a38310..fbce949 100755
--- a/rubin_sim/maf/run_comparison/gather_summaries.py
+++ b/rubin_sim/maf/run_comparison/gather_summaries.py
@@ -33,6 +33,7 @@ def combine_result_dbs(run_dirs, dbfilename="resultsDb_sqlite.db"):
         fname = os.path.join(rdir, dbfilename)
         if not os.path.isfile(fname):
             logger.warning(f"No resultsDb database in {rdir}")
+            continue
 
         con = sqlite3.connect(fname)
         temp_df = pd.read_sql(sql_q, con)
@@ -51,7 +52,7 @@ def combine_result_dbs(run_dirs, dbfilename="resultsDb_sqlite.db"):
             summary_name = summary_name.replace("  ", " ")
             return summary_name
 
-        temp_df["summary_names"] = temp_df.apply(make_summary_name, axis=1)
+        temp_df["summary_names"] = [make_summary_name(x) for x in temp_df.itertuples()]
         all_summaries.append(temp_df[["summary_names", "summary_value", "run_name"]])
 
     # Make one big dataframe
-- 
2.43.0


From 14da0131b936be847a5c698299a066cc170f99a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:09 +0000
Subject: [PATCH 027/159] fix: CountBeyondThreshold with both thresholds,
 CountRatio units and columns of CoaddM5 in one filter

---
 rubin_sim/maf/metrics/simple_metrics.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/rubin_sim/maf/metrics/simple_metrics.py b/rubin_sim/maf/metrics/simple_metrics.py
index f2b5bde..0c6e71e 100644
--- a/rubin_sim/maf/metrics/simple_metrics.py
+++ b/rubin_sim/maf/metrics/simple_metrics.py
@@ -94,7 +94,8 @@ class Coaddm5Metric(BaseMetric):
         self.filter_name = filter_name
         self.filter_col = filter_col
         self.m5_col = m5_col
-        super().__init__(col=m5_col, metric_name=metric_name, units=units, **kwargs)
+        cols = m5_col if filter_name is None else [m5_col, filter_col]
+        super().__init__(col=cols, metric_name=metric_name, units=units, **kwargs)
 
     @staticmethod
     def coadd(single_visit_m5s):
@@ -104,7 +105,9 @@ class Coaddm5Metric(BaseMetric):
         if len(data_slice) == 0:
             return self.badval
         if self.filter_name is not None:
-            matched = np.where(data_slice[self.filter_col] == self.filter_name)
+            matched = np.where(data_slice[self.filter_col] == self.filter_name)[0]
+            if len(matched) == 0:
+                return self.badval
             coadd = self.coadd(data_slice[matched][self.m5_col])
         else:
             coadd = self.coadd(data_slice[self.m5_col])
@@ -262,7 +265,7 @@ class CountRatioMetric(BaseMetric):
         self.norm_val = float(norm_val)
         if metric_name is None:
             metric_name = "CountRatio %s div %.1f" % (col, norm_val)
-        super(CountRatioMetric, self).__init__(col=col, metric_name=metric_name, **kwargs)
+        super(CountRatioMetric, self).__init__(col=col, metric_name=metric_name, units=units, **kwargs)
 
     def run(self, data_slice, slice_point=None):
         return len(data_slice[self.colname]) / self.norm_val
@@ -303,7 +306,7 @@ class CountBeyondThreshold(BaseMetric):
             count = len(
                 np.where(
                     (data_slice[self.colname] > self.lower_threshold)
-                    and (data_slice[self.colname] < self.upper_threshold)
+                    & (data_slice[self.colname] < self.upper_threshold)
                 )[0]
             )
         return count
-- 
2.43.0


From 55f0a766922b78f47453a0fb3da19e61831f3329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:09 +0000
Subject: [PATCH 028/159] fix: YearCoverageMetric ignored its name and bad
 value

---
 rubin_sim/maf/metrics/coverage_metric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/coverage_metric.py b/rubin_sim/maf/metrics/coverage_metric.py
index d203336..dc39c99 100644
--- a/rubin_sim/maf/metrics/coverage_metric.py
+++ b/rubin_sim/maf/metrics/coverage_metric.py
@@ -40,7 +40,7 @@ class YearCoverageMetric(BaseMetric):
         if units is None:
             units = "N years"
 
-        super().__init__([night_col], units=units)
+        super().__init__([night_col], units=units, **kwargs)
 
     def run(self, data_slice, slice_point):
         hist, be = np.histogram(data_slice[self.night_col], bins=self.bins)
-- 
2.43.0


From 096b14b959e2329629957ea27cc2ad27b26a3b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:09 +0000
Subject: [PATCH 029/159] fix: StringCountMetric with clip_end changed the
 visits

---
 rubin_sim/maf/metrics/string_count_metric.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/maf/metrics/string_count_metric.py b/rubin_sim/maf/metrics/string_count_metric.py
index f8c5b1a..ba13635 100644
--- a/rubin_sim/maf/metrics/string_count_metric.py
+++ b/rubin_sim/maf/metrics/string_count_metric.py
@@ -53,6 +53,7 @@ class StringCountMetric(BaseMetric):
 
     def run(self, data_slice, slice_point=None):
 
+        values = data_slice[self.col]
         # If we need to clip off trailing integer
         if self.clip_end:
             replace_col = []
@@ -66,9 +67,9 @@ class StringCountMetric(BaseMetric):
                         replace_col.append(val)
                 else:
                     replace_col.append(val)
-            data_slice[self.col] = replace_col
+            values = replace_col
 
-        counter = Counter(data_slice[self.col])
+        counter = Counter(values)
         # convert to a numpy array
         lables = list(counter.keys())
         # Numpy can't handle empty string as a dtype
-- 
2.43.0


From 4f63bde4f85dd1715845cb4691793d6993d03d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:35 +0000
Subject: [PATCH 030/159] fix: summary statistics with a NaN fill value failed
 for integer metrics

---
 rubin_sim/maf/metric_bundles/metric_bundle.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metric_bundles/metric_bundle.py b/rubin_sim/maf/metric_bundles/metric_bundle.py
index a5e32c4..7398604 100644
--- a/rubin_sim/maf/metric_bundles/metric_bundle.py
+++ b/rubin_sim/maf/metric_bundles/metric_bundle.py
@@ -648,7 +648,11 @@ class MetricBundle:
                     # summary metric requests to use the mask value,
                     # as specified by itself,
                     # rather than skipping masked vals.
-                    arr = self.metric_values.filled(m.mask_val)
+                    vals = self.metric_values
+                    if vals.dtype.kind in "iu" and isinstance(m.mask_val, float):
+                        # Integers cannot hold (for example) NaN.
+                        vals = vals.astype(float)
+                    arr = vals.filled(m.mask_val)
                     rarr = np.empty(arr.shape, dtype=[("metricdata", arr.dtype)])
                     rarr["metricdata"] = arr
                 else:
-- 
2.43.0


From ce4cd5f93f6bf8809b2e2c3dc7ccff097871425f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:49 +0000
Subject: [PATCH 031/159] fix: GalacticStacker declared degrees for columns in
 radians

---
 rubin_sim/maf/stackers/coord_stackers.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/rubin_sim/maf/stackers/coord_stackers.py b/rubin_sim/maf/stackers/coord_stackers.py
index eab5663..9c260ad 100644
--- a/rubin_sim/maf/stackers/coord_stackers.py
+++ b/rubin_sim/maf/stackers/coord_stackers.py
@@ -87,6 +87,9 @@ class GalacticStacker(BaseStacker):
         Name of the RA column. Default fieldRA.
     dec_col : str, optional
         Name of the Dec column. Default fieldDec.
+    degrees : bool, optional
+        Whether the RA and Dec columns are in degrees (True) or radians.
+        The added columns are in radians.
     """
 
     cols_added = ["gall", "galb"]
@@ -96,13 +99,10 @@ class GalacticStacker(BaseStacker):
         self.ra_col = ra_col
         self.dec_col = dec_col
         self.degrees = degrees
-        if self.degrees:
-            self.units = ["degrees", "degrees"]
-        else:
-            self.units = ["radians", "radians"]
+        self.units = ["radians", "radians"]
 
     def _run(self, sim_data, cols_present=False):
-        # raCol and DecCol in radians, gall/b in radians.
+        # raCol and DecCol in degrees or radians, gall/b always in radians.
         if cols_present:
             # Column already present in data;
             # assume it is correct and does not need recalculating.
-- 
2.43.0


From e5065fccb6dc96f8773a050af817ef72f2dca656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:50 +0000
Subject: [PATCH 032/159] fix: EclipticStacker could not subtract the longitude
 of the sun

---
 rubin_sim/maf/stackers/coord_stackers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/stackers/coord_stackers.py b/rubin_sim/maf/stackers/coord_stackers.py
index 9c260ad..ce93380 100644
--- a/rubin_sim/maf/stackers/coord_stackers.py
+++ b/rubin_sim/maf/stackers/coord_stackers.py
@@ -176,7 +176,7 @@ class EclipticStacker(BaseStacker):
             sim_data["eclipLat"] = coord_ecl.lat.rad
 
             if self.subtract_sun_lon:
-                times = Time(sim_data[self.mjd_col])
+                times = Time(sim_data[self.mjd_col], format="mjd")
                 sun = get_sun(times)
                 sun_ecl = sun.geocentricmeanecliptic
                 lon = wrap_ra(coord_ecl.lon.rad - sun_ecl.lon.rad)
-- 
2.43.0


From d2ee39a4a9e3f61f2a5dd42567bb31c3efb48759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:29 +0000
Subject: [PATCH 033/159] fix: SaturationStacker blanked the wrong visits, and
 needed both or neither of zeropoints and km

---
 rubin_sim/maf/stackers/general_stackers.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/rubin_sim/maf/stackers/general_stackers.py b/rubin_sim/maf/stackers/general_stackers.py
index 7f394bd..bd35a2a 100644
--- a/rubin_sim/maf/stackers/general_stackers.py
+++ b/rubin_sim/maf/stackers/general_stackers.py
@@ -81,11 +81,12 @@ class SaturationStacker(BaseStacker):
         self.km = km
 
     def _run(self, sim_data, cols_present=False):
-        if self.zeropoints is None:
+        if self.zeropoints is None or self.km is None:
             zp_inst, k_atm = load_inst_zeropoints()
-            self.zeropoints = zp_inst
-        if self.km is None:
-            self.km = k_atm
+            if self.zeropoints is None:
+                self.zeropoints = zp_inst
+            if self.km is None:
+                self.km = k_atm
         for filtername in np.unique(sim_data[self.filter_col]):
             in_filt = np.where(sim_data[self.filter_col] == filtername)[0]
             # Calculate the length of the on-sky time per EXPOSURE
@@ -114,7 +115,7 @@ class SaturationStacker(BaseStacker):
                 sim_data[self.airmass_col][in_filt] - 1.0
             )
             # Explicitly make sure if sky has saturated we return NaN
-            sim_data["saturation_mag"][np.where(remaining_counts_peak < 0)] = np.nan
+            sim_data["saturation_mag"][in_filt[remaining_counts_peak < 0]] = np.nan
 
         return sim_data
 
-- 
2.43.0


From 880150ebdcb42cd23b0be9e6286168004602e553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:29 +0000
Subject: [PATCH 034/159] fix: units of zenith distance, parallactic angle, DCR
 variance and t_eff columns

---
 rubin_sim/maf/stackers/general_stackers.py | 8 ++++----
 rubin_sim/maf/stackers/teff_stacker.py     | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/rubin_sim/maf/stackers/general_stackers.py b/rubin_sim/maf/stackers/general_stackers.py
index bd35a2a..a923e46 100644
--- a/rubin_sim/maf/stackers/general_stackers.py
+++ b/rubin_sim/maf/stackers/general_stackers.py
@@ -279,7 +279,7 @@ class ZenithDistStacker(BaseStacker):
         if self.degrees:
             self.units = ["degrees"]
         else:
-            self.unit = ["radians"]
+            self.units = ["radians"]
         self.cols_req = [self.alt_col]
 
     def _run(self, sim_data, cols_present=False):
@@ -563,7 +563,7 @@ class Dcr2Stacker(BaseStacker):
         zstacker=None,
         pastacker=None,
     ):
-        self.units = ["arcsec", "arcsec"]
+        self.units = ["arcsec^2"] * 4
 
         # Calculated using a flat SED, units are arcseconds^2
         if dcr2_magnitudes is None:
@@ -591,7 +591,7 @@ class Dcr2Stacker(BaseStacker):
         if zstacker is None:
             self.zstacker = ZenithDistStacker(alt_col=alt_col, degrees=self.degrees)
         else:
-            self.ztacker = zstacker
+            self.zstacker = zstacker
 
         if pastacker is None:
             self.pastacker = ParallacticAngleStacker(
@@ -738,7 +738,7 @@ class ParallacticAngleStacker(BaseStacker):
         self.degrees = degrees
         self.mjd_col = mjd_col
         self.site = Site(name=site)
-        self.units = ["radians"]
+        self.units = ["degrees"] if self.degrees else ["radians"]
         self.cols_req = [self.ra_col, self.dec_col, self.mjd_col, self.lst_col]
         self.ha_stacker = HourAngleStacker(lst_col=lst_col, ra_col=ra_col, degrees=self.degrees)
 
diff --git a/rubin_sim/maf/stackers/teff_stacker.py b/rubin_sim/maf/stackers/teff_stacker.py
index e311431..8f21b2f 100644
--- a/rubin_sim/maf/stackers/teff_stacker.py
+++ b/rubin_sim/maf/stackers/teff_stacker.py
@@ -127,7 +127,7 @@ class TeffStacker(BaseStacker):
         if self.normed and self.exptime_col not in self.cols_req:
             self.cols_req.append(self.exptime_col)
 
-        self.units = "" if self.normed else "seconds"
+        self.units = [""] if self.normed else ["seconds"]
 
     def _run(self, sim_data, cols_present=False):
         if cols_present:
-- 
2.43.0


From f914572599826ebb2ef9103f3ba1726ce5cb30c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:29 +0000
Subject: [PATCH 035/159] fix: NFollowStacker swapped latitude and longitude of
 the observatories

---
 rubin_sim/maf/stackers/n_follow_stacker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/stackers/n_follow_stacker.py b/rubin_sim/maf/stackers/n_follow_stacker.py
index 692eb9b..b0948e9 100644
--- a/rubin_sim/maf/stackers/n_follow_stacker.py
+++ b/rubin_sim/maf/stackers/n_follow_stacker.py
@@ -171,8 +171,8 @@ class NFollowStacker(BaseStacker):
                 alt, az = ra_dec2_alt_az(
                     ra,
                     dec,
-                    obs_lon,
                     obs_lat,
+                    obs_lon,
                     sim_data[self.mjd_col] + step / 24.0,
                     altonly=True,
                 )
-- 
2.43.0


From 60c8fe53dde43b8e982bcb70011cfac2e68a3eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:29 +0000
Subject: [PATCH 036/159] fix: M5OptimalStacker seeing term was ten times too
 small, and m5 column not requested

---
 rubin_sim/maf/stackers/m5_optimal_stacker.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/maf/stackers/m5_optimal_stacker.py b/rubin_sim/maf/stackers/m5_optimal_stacker.py
index 58fe538..393e9ff 100644
--- a/rubin_sim/maf/stackers/m5_optimal_stacker.py
+++ b/rubin_sim/maf/stackers/m5_optimal_stacker.py
@@ -85,6 +85,7 @@ class M5OptimalStacker(BaseStacker):
             dec_col,
             sky_bright_col,
             seeing_col,
+            m5_col,
             filter_col,
             moon_alt_col,
             sun_alt_col,
@@ -113,12 +114,12 @@ class M5OptimalStacker(BaseStacker):
                 np.where((sim_data[self.moon_alt_col] > 0) | (sim_data[self.sun_alt_col] > np.radians(-18.0)))
             ] = 0
             # Using Approximation that FWHM~X^0.6.
-            # So seeing term in m5 of: 0.25 * log (7.0/FWHMeff )
-            # Goes to 0.15 log(FWHM_min / FWHM_eff) in the difference
+            # So seeing term in m5 of: 2.5 * log (0.7/FWHMeff )
+            # Goes to 1.5 log(X_min / X) in the difference
             m5_optimal = (
                 sim_data[self.m5_col]
                 - 0.5 * delta_sky
-                - 0.15 * np.log10(min_airmass_possible / sim_data[self.airmass_col])
+                - 1.5 * np.log10(min_airmass_possible / sim_data[self.airmass_col])
                 - k_atm[filter_name] * (min_airmass_possible - sim_data[self.airmass_col])
             )
             good = np.where(sim_data[self.filter_col] == filter_name)
-- 
2.43.0


From 88f9f240f99dca0259d958a13d1b72a8707ab3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:29 +0000
Subject: [PATCH 037/159] fix: ObservationStartTimestampStacker added its
 column to the caller's DataFrame

---
 rubin_sim/maf/stackers/date_stackers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/stackers/date_stackers.py b/rubin_sim/maf/stackers/date_stackers.py
index 9827ea9..956e033 100644
--- a/rubin_sim/maf/stackers/date_stackers.py
+++ b/rubin_sim/maf/stackers/date_stackers.py
@@ -59,7 +59,7 @@ class ObservationStartTimestampStacker(BaseStacker):
         # clobbers the type for the new column,
         # which we really need.
 
-        visits = sim_data if isinstance(sim_data, pd.DataFrame) else pd.DataFrame(sim_data)
+        visits = sim_data.copy() if isinstance(sim_data, pd.DataFrame) else pd.DataFrame(sim_data)
 
         if "start_timestamp" in visits.columns and not override:
             return sim_data
-- 
2.43.0


From e000d0c317da1a76ff397169040edcb5715cdf26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:29 +0000
Subject: [PATCH 038/159] fix: OverheadStacker took the previous row for the
 previous visit

---
 rubin_sim/maf/stackers/general_stackers.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/maf/stackers/general_stackers.py b/rubin_sim/maf/stackers/general_stackers.py
index a923e46..fba5190 100644
--- a/rubin_sim/maf/stackers/general_stackers.py
+++ b/rubin_sim/maf/stackers/general_stackers.py
@@ -823,9 +823,11 @@ class OverheadStacker(BaseStacker):
         # This is all non-exposure time required for this visit --
         # includes slew time to this target, any shutter overheads for this
         # visit, and any readouts not absorbed in slewtime for this visit.
+        order = np.argsort(sim_data[self.mjd_col], kind="stable")
         observation_end_mjd = sim_data[self.mjd_col] + sim_data[self.visit_time_col] / (24 * 60 * 60)
         overhead = (
-            np.diff(observation_end_mjd, prepend=np.nan) * 24 * 60 * 60 - sim_data[self.exposure_time_col]
+            np.diff(observation_end_mjd[order], prepend=np.nan) * 24 * 60 * 60
+            - sim_data[self.exposure_time_col][order]
         )
 
         # Rough heuristic not to count downtime due to weather or instrument
@@ -842,9 +844,9 @@ class OverheadStacker(BaseStacker):
         # catch all delays in the night. (The comment above.) But, in
         # even in this case, we would still not want to include gaps between
         # nights.
-        day_obs_mjd = self.day_obs_mjd_stacker.run(sim_data)["day_obs_mjd"]
+        day_obs_mjd = self.day_obs_mjd_stacker.run(sim_data)["day_obs_mjd"][order]
         different_night = np.diff(day_obs_mjd, prepend=np.nan) != 0
         overhead[different_night] = np.nan
 
-        sim_data[self.cols_added[0]] = overhead
+        sim_data[self.cols_added[0]][order] = overhead
         return sim_data
-- 
2.43.0


From 09b928adead0cf6ac4c33641e0f5978e1f1c6042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:40 +0000
Subject: [PATCH 039/159] fix: stackers with methods of their own never
 compared equal

---
 rubin_sim/maf/stackers/base_stacker.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rubin_sim/maf/stackers/base_stacker.py b/rubin_sim/maf/stackers/base_stacker.py
index 1702e0f..15fea9e 100644
--- a/rubin_sim/maf/stackers/base_stacker.py
+++ b/rubin_sim/maf/stackers/base_stacker.py
@@ -98,6 +98,9 @@ class BaseStacker(metaclass=StackerRegistry):
         state_now = dir(self)
         for key in state_now:
             if not key.startswith("_") and key != "registry" and key != "run" and key != "next":
+                # Methods are those of the class, compared above.
+                if inspect.ismethod(getattr(self, key)):
+                    continue
                 if not hasattr(other_stacker, key):
                     return False
                 # If the attribute is from numpy, assume it's an array
-- 
2.43.0


From 83bf0bd33d0d85d551abacc8a47965a00f4a1217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:40 +0000
Subject: [PATCH 040/159] fix: WFDlabelStacker failed on a table with one visit

---
 rubin_sim/maf/stackers/label_stackers.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rubin_sim/maf/stackers/label_stackers.py b/rubin_sim/maf/stackers/label_stackers.py
index 5b51851..ca68575 100644
--- a/rubin_sim/maf/stackers/label_stackers.py
+++ b/rubin_sim/maf/stackers/label_stackers.py
@@ -88,8 +88,7 @@ class WFDlabelStacker(BaseStacker):
             if p.startswith("DD"):
                 d.add(self.define_ddname(p))
         # Identify Healpixels associated with each visit.
-        vec = hp.dir2vec(sim_data[self.ra_col], sim_data[self.dec_col], lonlat=True)
-        vec = vec.swapaxes(0, 1)
+        vec = hp.ang2vec(sim_data[self.ra_col], sim_data[self.dec_col], lonlat=True)
         radius = np.radians(1.75)  # fov radius
         area_id = np.zeros(len(sim_data), self.cols_added_dtypes[0])
         for i, (v, note) in enumerate(zip(vec, sim_data[self.note_col])):
-- 
2.43.0


From 9ff39cfb9501cb5c004142cc1efa6fd614c6066a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:00 +0000
Subject: [PATCH 041/159] fix: get_sim_data accepts SQLAlchemy connections, as
 documented

---
 rubin_sim/maf/utils/opsim_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/maf/utils/opsim_utils.py b/rubin_sim/maf/utils/opsim_utils.py
index 8ee17ad..465c281 100644
--- a/rubin_sim/maf/utils/opsim_utils.py
+++ b/rubin_sim/maf/utils/opsim_utils.py
@@ -11,7 +11,7 @@ from contextlib import closing
 
 import numpy as np
 import pandas as pd
-from sqlalchemy import create_engine, inspect
+from sqlalchemy import Connection, Engine, create_engine, inspect
 from sqlalchemy.engine import make_url
 
 
@@ -89,7 +89,7 @@ def get_sim_data(
     else:
         query = full_sql_query
 
-    if isinstance(db_con, sqlite3.Connection):
+    if isinstance(db_con, (sqlite3.Connection, Connection, Engine)):
         sim_data = pd.read_sql(query, db_con).to_records(index=False)
     elif isinstance(db_con, str) and os.path.isfile(db_con):
         with closing(sqlite3.connect(db_con)) as con:
@@ -107,7 +107,7 @@ def get_sim_data(
                 "Maybe it does not exist, or maybe you need to install lsst.resources."
             )
     else:
-        raise RuntimeError("Cannot find {db_con}.")
+        raise RuntimeError(f"Cannot find {db_con}.")
 
     if len(sim_data) == 0:
         raise UserWarning("No data found matching sqlconstraint %s" % (sqlconstraint))
-- 
2.43.0


From e1369819ccafb30b77bacfd56aff8ee66ffc67aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:15 +0000
Subject: [PATCH 042/159] fix: GeneralUniformityMetric scaled values by the
 maximum, not by the range

---
 rubin_sim/maf/metrics/cadence_metrics.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/cadence_metrics.py b/rubin_sim/maf/metrics/cadence_metrics.py
index 5e29bd9..bbab07e 100644
--- a/rubin_sim/maf/metrics/cadence_metrics.py
+++ b/rubin_sim/maf/metrics/cadence_metrics.py
@@ -145,7 +145,10 @@ class GeneralUniformityMetric(BaseMetric):
             max_value = data_slice[self.col].max()
         else:
             max_value = self.max_value
-        scaled_values = (data_slice[self.col] - min_value) / max_value
+        # If there is no range to cover, there is no uniformity
+        if max_value == min_value:
+            return 1
+        scaled_values = (data_slice[self.col] - min_value) / (max_value - min_value)
         scaled_values.sort()  # Just to be sure
         n_cum = np.arange(0, scaled_values.size) / float(scaled_values.size - 1)
         d_max = np.max(np.abs(n_cum - scaled_values))
-- 
2.43.0


From a6a665c6d2584cc56b48822b5ed4c49d3564a22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:16 +0000
Subject: [PATCH 043/159] fix: VisitGapMetric of one visit and NightgapsMetric
 of one night

---
 rubin_sim/maf/metrics/cadence_metrics.py | 2 ++
 rubin_sim/maf/metrics/tgaps.py           | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/cadence_metrics.py b/rubin_sim/maf/metrics/cadence_metrics.py
index bbab07e..fe78791 100644
--- a/rubin_sim/maf/metrics/cadence_metrics.py
+++ b/rubin_sim/maf/metrics/cadence_metrics.py
@@ -399,5 +399,7 @@ class VisitGapMetric(BaseMetric):
     def run(self, data_slice, slice_point=None):
         data_slice.sort(order=self.mjd_col)
         diff = np.diff(data_slice[self.mjd_col])
+        if np.size(diff) == 0:
+            return self.badval
         result = self.reduce_func(diff) * 24.0
         return result
diff --git a/rubin_sim/maf/metrics/tgaps.py b/rubin_sim/maf/metrics/tgaps.py
index 62c81be..e027e8f 100644
--- a/rubin_sim/maf/metrics/tgaps.py
+++ b/rubin_sim/maf/metrics/tgaps.py
@@ -245,7 +245,7 @@ class NightgapsMetric(BaseMetric):
         if data_slice.size < 2:
             return self.badval
         nights = np.sort(np.unique(data_slice[self.night_col]))
-        if self.all_gaps:
+        if self.all_gaps and nights.size > 1:
             all_diffs = []
             for i in np.arange(1, nights.size, 1):
                 all_diffs.append((nights - np.roll(nights, i))[i:])
-- 
2.43.0


From ac5b1697dbec057b8632006227c5922e1cf22027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:16 +0000
Subject: [PATCH 044/159] fix: CoaddM5PerNightMetric merged or dropped the
 nights at and after ten years

---
 rubin_sim/maf/metrics/tgaps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/tgaps.py b/rubin_sim/maf/metrics/tgaps.py
index e027e8f..9ff8a25 100644
--- a/rubin_sim/maf/metrics/tgaps.py
+++ b/rubin_sim/maf/metrics/tgaps.py
@@ -329,7 +329,7 @@ class CoaddM5PerNightMetric(BaseMetric):
             data_slice[self.night_col],
             data_slice[self.m5_col],
             statistic=coadd_m5,
-            bins=np.arange(0, 3653, 1),
+            bins=np.arange(data_slice[self.night_col].min(), data_slice[self.night_col].max() + 2, 1),
         )
         # Drop the nights with no observations (-inf)
         m5_per_night = m5_per_night[np.where(m5_per_night > 0)]
-- 
2.43.0


From 72ff56495242a86b49c46057c936671004679aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:16 +0000
Subject: [PATCH 045/159] fix: VisitGroupsMetric counted any two visits in a
 night as a group

---
 rubin_sim/maf/metrics/visit_groups_metric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/visit_groups_metric.py b/rubin_sim/maf/metrics/visit_groups_metric.py
index 00450f6..b32c07f 100644
--- a/rubin_sim/maf/metrics/visit_groups_metric.py
+++ b/rubin_sim/maf/metrics/visit_groups_metric.py
@@ -217,7 +217,7 @@ class VisitGroupsMetric(BaseMetric):
                     if not timegood[-2] and not timetooclose[-2]:
                         ntooclose += 1
             else:
-                if timegood.size > 0:
+                if timegood.size > 0 and timegood[0]:
                     nvisits += 2
             # Count up all visits for night.
             if nvisits > 0:
-- 
2.43.0


From 0685de5d155640e37b33bcc8fcc3589359965886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:16 +0000
Subject: [PATCH 046/159] fix: VisitGroupsMetric lost the sequence of lunations
 when a group did not start on the first night

---
 rubin_sim/maf/metrics/visit_groups_metric.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/rubin_sim/maf/metrics/visit_groups_metric.py b/rubin_sim/maf/metrics/visit_groups_metric.py
index b32c07f..6d5280c 100644
--- a/rubin_sim/maf/metrics/visit_groups_metric.py
+++ b/rubin_sim/maf/metrics/visit_groups_metric.py
@@ -320,11 +320,7 @@ class VisitGroupsMetric(BaseMetric):
         for lunation in lunations:
             # Find visits within lunation.
             vl, nl = self._in_lunation(metricval["visits"], metricval["nights"], lunation, lunation_length)
-            # If no visits this lunation:
-            if len(vl) == 0:
-                max_sequence = max(max_sequence, cur_sequence)
-                cur_sequence = 0
-            # Else, look to see if groups can be made from the visits.
+            # Look to see if groups can be made from the visits.
             for n in nl:
                 # Find visits which are in groups within the lunation.
                 vw, nw = self._in_window(vl, nl, n, self.window, self.min_n_visits)
@@ -332,10 +328,10 @@ class VisitGroupsMetric(BaseMetric):
                 if len(nw) >= self.min_n_nights:
                     cur_sequence += 1
                     break
-                # Otherwise we're not in a sequence (anymore, or still).
-                else:
-                    max_sequence = max(max_sequence, cur_sequence)
-                    cur_sequence = 0
+            # If there was none, we're not in a sequence (anymore, or still).
+            else:
+                max_sequence = max(max_sequence, cur_sequence)
+                cur_sequence = 0
         # Pick up last sequence if were in a sequence at last lunation.
         max_sequence = max(max_sequence, cur_sequence)
         return max_sequence
-- 
2.43.0


From 01a2a52ff74e1f51cd1f8455b1cbf70fa5833a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:16 +0000
Subject: [PATCH 047/159] fix: PhaseGapMetric with one period, equal periods or
 several equally bad periods

---
 rubin_sim/maf/metrics/phase_gap_metric.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/rubin_sim/maf/metrics/phase_gap_metric.py b/rubin_sim/maf/metrics/phase_gap_metric.py
index cf739d1..eebb15d 100644
--- a/rubin_sim/maf/metrics/phase_gap_metric.py
+++ b/rubin_sim/maf/metrics/phase_gap_metric.py
@@ -50,12 +50,7 @@ class PhaseGapMetric(BaseMetric):
         if len(data_slice) < self.n_visits_min:
             return self.badval
         # Create 'nPeriods' evenly spaced periods within range of min to max.
-        step = (self.period_max - self.period_min) / self.n_periods
-        if step == 0:
-            periods = np.array([self.period_min])
-        else:
-            periods = np.arange(self.n_periods)
-            periods = periods / np.max(periods) * (self.period_max - self.period_min) + self.period_min
+        periods = np.linspace(self.period_min, self.period_max, self.n_periods)
         max_gap = np.zeros(self.n_periods, float)
 
         for i, period in enumerate(periods):
@@ -86,7 +81,7 @@ class PhaseGapMetric(BaseMetric):
         """
         At each slice_point, return the period with the largest phase gap.
         """
-        worst_p = metric_val["periods"][np.where(metric_val["maxGaps"] == metric_val["maxGaps"].max())]
+        worst_p = metric_val["periods"][np.argmax(metric_val["maxGaps"])]
         return worst_p
 
     def reduce_largest_gap(self, metric_val):
-- 
2.43.0


From 88bb8034584c8e74c265657b411df80687ba08eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:30 +0000
Subject: [PATCH 048/159] fix: KuiperMetric compared with the wrong side of the
 steps of the distribution

---
 rubin_sim/maf/metrics/kuiper_metrics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/kuiper_metrics.py b/rubin_sim/maf/metrics/kuiper_metrics.py
index bcf310e..983ab9a 100644
--- a/rubin_sim/maf/metrics/kuiper_metrics.py
+++ b/rubin_sim/maf/metrics/kuiper_metrics.py
@@ -19,7 +19,8 @@ class KuiperMetric(BaseMetric):
         dist_1 = (np.arange(values.size) + 1) / values.size
         uniform = values / (360.0)
 
-        d_plus = np.max(uniform - dist_1)
+        # The cumulative distribution steps from i/n to (i+1)/n at each value.
+        d_plus = np.max(uniform - (dist_1 - 1.0 / values.size))
         d_minus = np.max(dist_1 - uniform)
         result = d_plus + d_minus
 
-- 
2.43.0


From 3f99ca80e1f866271571bc86c496d7212f3fe8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:36 +0000
Subject: [PATCH 049/159] fix: accumulate only the visits up to each bin's
 upper edge

---
 rubin_sim/maf/metrics/vector_metrics.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/rubin_sim/maf/metrics/vector_metrics.py b/rubin_sim/maf/metrics/vector_metrics.py
index 2f357da..6fae95c 100644
--- a/rubin_sim/maf/metrics/vector_metrics.py
+++ b/rubin_sim/maf/metrics/vector_metrics.py
@@ -80,10 +80,10 @@ class AccumulateMetric(VectorMetric):
         data_slice.sort(order=self.bin_col)
 
         result = self.function.accumulate(data_slice[self.col])
-        indices = np.searchsorted(data_slice[self.bin_col], self.bins[1:], side="right")
-        indices[np.where(indices >= np.size(result))] = np.size(result) - 1
+        # Index of the last visit at or before the upper edge of each bin.
+        indices = np.searchsorted(data_slice[self.bin_col], self.bins[1:], side="right") - 1
         result = result[indices]
-        result[np.where(indices == 0)] = self.badval
+        result[np.where(indices < 0)] = self.badval
         return result
 
 
@@ -92,10 +92,10 @@ class AccumulateCountMetric(AccumulateMetric):
         data_slice.sort(order=self.bin_col)
         to_count = np.ones(data_slice.size, dtype=int)
         result = self.function.accumulate(to_count)
-        indices = np.searchsorted(data_slice[self.bin_col], self.bins[1:], side="right")
-        indices[np.where(indices >= np.size(result))] = np.size(result) - 1
+        # Index of the last visit at or before the upper edge of each bin.
+        indices = np.searchsorted(data_slice[self.bin_col], self.bins[1:], side="right") - 1
         result = result[indices]
-        result[np.where(indices == 0)] = self.badval
+        result[np.where(indices < 0)] = self.badval
         return result
 
 
@@ -144,11 +144,11 @@ class AccumulateM5Metric(AccumulateMetric):
         flux = 10.0 ** (0.8 * data_slice[self.m5_col])
 
         result = np.add.accumulate(flux)
-        indices = np.searchsorted(data_slice[self.bin_col], self.bins[1:], side="right")
-        indices[np.where(indices >= np.size(result))] = np.size(result) - 1
+        # Index of the last visit at or before the upper edge of each bin.
+        indices = np.searchsorted(data_slice[self.bin_col], self.bins[1:], side="right") - 1
         result = result[indices]
         result = 1.25 * np.log10(result)
-        result[np.where(indices == 0)] = self.badval
+        result[np.where(indices < 0)] = self.badval
         return result
 
 
-- 
2.43.0


From 92ac5a8b19a080b1a94f72833553f24e99977de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:13 +0000
Subject: [PATCH 050/159] fix: DiscoveryMetric mixed indexes for observations
 not in time order

---
 rubin_sim/maf/metrics/mo_metrics.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/mo_metrics.py b/rubin_sim/maf/metrics/mo_metrics.py
index a06e2a1..98cc1a2 100644
--- a/rubin_sim/maf/metrics/mo_metrics.py
+++ b/rubin_sim/maf/metrics/mo_metrics.py
@@ -403,8 +403,11 @@ class DiscoveryMetric(BaseMoMetric):
         if len(vis) == 0:
             return self.badval
         # Identify discovery opportunities.
+        # Put the visible observations in time order, so that the indexes
+        # below (and those returned) refer to time-ordered visible observations.
+        vis = vis[np.argsort(sso_obs[self.mjd_col][vis])]
+        vis_sort = np.arange(len(vis))
         #  Identify visits where the 'night' changes.
-        vis_sort = np.argsort(sso_obs[self.mjd_col][vis])
         nights = sso_obs[self.night_col][vis][vis_sort]
         # print 'all nights', nights
         n = np.unique(nights)
-- 
2.43.0


From cac8f9a5664a93dba19a9ed6b755d9124ded8202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:13 +0000
Subject: [PATCH 051/159] fix: DiscoveryVelocityMetric used a nonexistent
 attribute of its parent

---
 rubin_sim/maf/metrics/mo_metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/mo_metrics.py b/rubin_sim/maf/metrics/mo_metrics.py
index 98cc1a2..e5eceba 100644
--- a/rubin_sim/maf/metrics/mo_metrics.py
+++ b/rubin_sim/maf/metrics/mo_metrics.py
@@ -689,7 +689,7 @@ class DiscoveryVelocityMetric(BaseChildMetric):
     def __init__(self, parent_discovery_metric, badval=-999, **kwargs):
         super().__init__(parent_discovery_metric, badval=badval, **kwargs)
         self.i = 0
-        self.snr_limit = parent_discovery_metric.snrLimit
+        self.snr_limit = parent_discovery_metric.snr_limit
 
     def run(self, sso_obs, orb, hval, metric_values):
         if self.i >= len(metric_values["start"]):
-- 
2.43.0


From c2c222e65a546bdb571a9c353c950f3848dd036d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:13 +0000
Subject: [PATCH 052/159] fix: MagicDiscoveryMetric sorted nights before
 selecting visible observations

---
 rubin_sim/maf/metrics/mo_metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/mo_metrics.py b/rubin_sim/maf/metrics/mo_metrics.py
index e5eceba..975d688 100644
--- a/rubin_sim/maf/metrics/mo_metrics.py
+++ b/rubin_sim/maf/metrics/mo_metrics.py
@@ -873,7 +873,7 @@ class MagicDiscoveryMetric(BaseMoMetric):
         vis = _set_vis(sso_obs, self.snr_limit, self.snr_col, self.vis_col)
         if len(vis) < self.n_obs:
             return self.badval
-        t_nights = np.sort(sso_obs[self.night_col])[vis]
+        t_nights = np.sort(sso_obs[self.night_col][vis])
         u_nights = np.unique(t_nights)
         indx_w = np.searchsorted(t_nights, u_nights, "left")
         indx_p = np.searchsorted(t_nights - self.t_window, u_nights, "left")
-- 
2.43.0


From 8638d38ec76cece3a58d76f3a7a8e0375382cac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:39 +0000
Subject: [PATCH 053/159] fix: ActivityOverTimeMetric counted bin edges as
 windows

---
 rubin_sim/maf/metrics/mo_metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/mo_metrics.py b/rubin_sim/maf/metrics/mo_metrics.py
index 975d688..ae19184 100644
--- a/rubin_sim/maf/metrics/mo_metrics.py
+++ b/rubin_sim/maf/metrics/mo_metrics.py
@@ -739,7 +739,7 @@ class ActivityOverTimeMetric(BaseMoMetric):
         self.window = window
         self.survey_years = survey_years
         self.window_bins = np.arange(0, self.survey_years * 365 + self.window / 2.0, self.window)
-        self.n_windows = len(self.window_bins)
+        self.n_windows = len(self.window_bins) - 1
         self.units = "%.1f Day Windows" % (self.window)
 
     def run(self, sso_obs, orb, hval):
-- 
2.43.0


From fc673267e01c14d08c5ffdee0e94748f128a661e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:39 +0000
Subject: [PATCH 054/159] fix: HighVelocityNightsMetric needed time-ordered
 input and reported invisible observations

---
 rubin_sim/maf/metrics/mo_metrics.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/mo_metrics.py b/rubin_sim/maf/metrics/mo_metrics.py
index ae19184..1de4751 100644
--- a/rubin_sim/maf/metrics/mo_metrics.py
+++ b/rubin_sim/maf/metrics/mo_metrics.py
@@ -966,6 +966,10 @@ class HighVelocityNightsMetric(BaseMoMetric):
         if len(high_velocity_obs) == 0:
             return 0
         nights = sso_obs[self.night_col][vis][high_velocity_obs]
+        times = sso_obs[self.mjd_col][vis][high_velocity_obs]
+        time_sort = np.argsort(times)
+        nights = nights[time_sort]
+        times = times[time_sort]
         n = np.unique(nights)
         n_idx = np.searchsorted(nights, n)
         # Count the number of observations per night (except last night)
@@ -977,7 +981,7 @@ class HighVelocityNightsMetric(BaseMoMetric):
         # (this is already looking at only high velocity observations).
         n_with_x_obs = n[np.where(obs_per_night >= self.n_obs_per_night)]
         if len(n_with_x_obs) > 0:
-            found = sso_obs[np.where(sso_obs[self.night_col] == n_with_x_obs[0])][self.mjd_col][0]
+            found = times[np.where(nights == n_with_x_obs[0])][0]
         else:
             found = self.badval
         return found
-- 
2.43.0


From c18952a34e7d2ffe77b7a329193e8378b7863659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:39 +0000
Subject: [PATCH 055/159] fix: InstantaneousColorMetric accepted any earlier
 second-band observation as a pair

---
 rubin_sim/maf/metrics/mo_metrics.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/maf/metrics/mo_metrics.py b/rubin_sim/maf/metrics/mo_metrics.py
index 1de4751..50ba641 100644
--- a/rubin_sim/maf/metrics/mo_metrics.py
+++ b/rubin_sim/maf/metrics/mo_metrics.py
@@ -1339,9 +1339,13 @@ class InstantaneousColorMetric(BaseMoMetric):
             return 0
         d_time = self.n_hours / 24.0
         # Calculate the time between the closest pairs of observations.
-        in_order = np.searchsorted(timesb_one, timesb_two, "right")
-        in_order = np.where(in_order - 1 > 0, in_order - 1, 0)
-        dt_pairs = timesb_two - timesb_one[in_order]
+        # Time from each bandTwo observation to the nearest bandOne observation.
+        timesb_one = np.sort(timesb_one)
+        after = np.clip(np.searchsorted(timesb_one, timesb_two), 0, len(timesb_one) - 1)
+        before = np.clip(after - 1, 0, len(timesb_one) - 1)
+        dt_pairs = np.minimum(
+            np.abs(timesb_two - timesb_one[before]), np.abs(timesb_two - timesb_one[after])
+        )
         if len(np.where(dt_pairs < d_time)[0]) >= self.n_pairs:
             found = 1
         else:
-- 
2.43.0


From 3c795edd53c98b578ece4462842897f9f2356eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:04 +0000
Subject: [PATCH 056/159] fix: moving object bundles ran the stackers of
 incompatible bundles

---
 rubin_sim/maf/metric_bundles/mo_metric_bundle.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metric_bundles/mo_metric_bundle.py b/rubin_sim/maf/metric_bundles/mo_metric_bundle.py
index edcd4e6..dcf0e39 100644
--- a/rubin_sim/maf/metric_bundles/mo_metric_bundle.py
+++ b/rubin_sim/maf/metric_bundles/mo_metric_bundle.py
@@ -421,6 +421,11 @@ class MoMetricBundleGroup:
                 # and if they are identical, that's ok.
                 if (stacker.__class__.__name__ == stacker2.__class__.__name__) & (stacker != stacker2):
                     return False
+                # Different stackers which set the same columns conflict.
+                if (stacker.__class__.__name__ != stacker2.__class__.__name__) and not set(
+                    stacker.cols_added
+                ).isdisjoint(stacker2.cols_added):
+                    return False
         # But if we got this far, everything matches.
         return True
 
@@ -523,7 +528,7 @@ class MoMetricBundleGroup:
         if self.verbose:
             print("Running metrics %s" % compatible_list)
 
-        b_dict = self.bundle_dict
+        b_dict = {k: self.bundle_dict[k] for k in compatible_list}
 
         # Find the unique stackers and maps.
         # These are already "compatible" (as id'd by compatible_list).
-- 
2.43.0


From c9bec020c15c76b8ef91ca0099cc47239dd0be4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:05 +0000
Subject: [PATCH 057/159] fix: pha_dndh_grav subscripted np.diff

---
 rubin_sim/maf/metrics/mo_summary_metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/mo_summary_metrics.py b/rubin_sim/maf/metrics/mo_summary_metrics.py
index 451d8a1..98c9c8e 100644
--- a/rubin_sim/maf/metrics/mo_summary_metrics.py
+++ b/rubin_sim/maf/metrics/mo_summary_metrics.py
@@ -77,7 +77,7 @@ def pha_dndh_granvik(hvalues, **kwargs):
 
 
 def pha_dndh_grav(hvalues, **kwargs):
-    binratio = (np.diff(hvalues, append=hvalues[-1] + np.diff[hvalues][-1])) / 0.1
+    binratio = (np.diff(hvalues, append=hvalues[-1] + np.diff(hvalues)[-1])) / 0.1
     y1 = 23.5 * np.power(10, 0.35 * (hvalues - 18.5))
     dndh = y1 * binratio
     return dndh
-- 
2.43.0


From 8ff45bbc68bd6d96d676f842ac24fb83ec1c0710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:05 +0000
Subject: [PATCH 058/159] fix: completeness summaries ignored hindex

---
 rubin_sim/maf/metrics/mo_summary_metrics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/maf/metrics/mo_summary_metrics.py b/rubin_sim/maf/metrics/mo_summary_metrics.py
index 98c9c8e..fd6c04f 100644
--- a/rubin_sim/maf/metrics/mo_summary_metrics.py
+++ b/rubin_sim/maf/metrics/mo_summary_metrics.py
@@ -352,7 +352,7 @@ class MoCompletenessMetric(BaseMoMetric):
             completeness = n_found.astype(float) / n_all.astype(float)
             completeness = np.where(n_all == 0, 0, completeness)
         if self.cumulative:
-            completeness_int = integrate_over_h(completeness, h_vals, power_law_dndh, Hindex=self.hindex)
+            completeness_int = integrate_over_h(completeness, h_vals, power_law_dndh, hindex=self.hindex)
             summary_val = np.empty(len(completeness_int), dtype=[("name", np.str_, 20), ("value", float)])
             summary_val["value"] = completeness_int
             for i, Hval in enumerate(h_vals):
@@ -447,7 +447,7 @@ class MoCompletenessAtTimeMetric(BaseMoMetric):
         completeness = completeness_h.swapaxes(0, 1)
         if self.cumulative:
             for i, t in enumerate(self.times):
-                completeness[i] = integrate_over_h(completeness[i], h_vals)
+                completeness[i] = integrate_over_h(completeness[i], h_vals, hindex=self.hindex)
         # To save the summary statistic, we must pick out a given H value.
         if self.hval is None:
             hidx = len(h_vals) // 2
-- 
2.43.0


From 2e21fabb84fb2ab8066e5ff470c604f237305584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:28 +0000
Subject: [PATCH 059/159] fix: MoCompletenessMetric binned metric values as if
 they were H

---
 rubin_sim/maf/metrics/mo_summary_metrics.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/rubin_sim/maf/metrics/mo_summary_metrics.py b/rubin_sim/maf/metrics/mo_summary_metrics.py
index fd6c04f..985eef0 100644
--- a/rubin_sim/maf/metrics/mo_summary_metrics.py
+++ b/rubin_sim/maf/metrics/mo_summary_metrics.py
@@ -338,17 +338,17 @@ class MoCompletenessMetric(BaseMoMetric):
         else:
             # The h_vals are spread more randomly among the objects
             # (we probably used one per object).
-            hrange = h_vals.max() - h_vals.min()
-            min_h = h_vals.min()
-            if hrange < self.min_hrange:
-                hrange = self.min_hrange
-                min_h = h_vals.min() - hrange / 2.0
-            stepsize = hrange / float(self.nbins)
-            bins = np.arange(min_h, min_h + hrange + stepsize / 2.0, stepsize)
+            obj_h = np.asarray(h_vals, dtype=float)
+            min_h, max_h = obj_h.min(), obj_h.max()
+            if max_h - min_h < self.min_hrange:
+                mid_h = (min_h + max_h) / 2.0
+                min_h, max_h = mid_h - self.min_hrange / 2.0, mid_h + self.min_hrange / 2.0
+            bins = np.linspace(min_h, max_h, self.nbins + 1)
             h_vals = bins[:-1]
-            n_all, b = np.histogram(metric_val_h[0], bins)
-            condition = np.where(metric_val_h[0] >= self.threshold)[0]
-            n_found, b = np.histogram(metric_val_h[0][condition], bins)
+            # Bin the objects in H, not in metric value.
+            n_all, b = np.histogram(obj_h, bins)
+            condition = np.where(metric_val_h[0].filled(0) >= self.threshold)[0]
+            n_found, b = np.histogram(obj_h[condition], bins)
             completeness = n_found.astype(float) / n_all.astype(float)
             completeness = np.where(n_all == 0, 0, completeness)
         if self.cumulative:
-- 
2.43.0


From 2b3c9df8c28dbd24c1779f4ca76a6a26a453edf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:28 +0000
Subject: [PATCH 060/159] fix: MoCompletenessAtTimeMetric could not be created
 with its default H

---
 rubin_sim/maf/metrics/mo_summary_metrics.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/maf/metrics/mo_summary_metrics.py b/rubin_sim/maf/metrics/mo_summary_metrics.py
index 985eef0..814d726 100644
--- a/rubin_sim/maf/metrics/mo_summary_metrics.py
+++ b/rubin_sim/maf/metrics/mo_summary_metrics.py
@@ -393,6 +393,7 @@ class MoCompletenessAtTimeMetric(BaseMoMetric):
 
     def __init__(self, times, hval=None, cumulative=None, hindex=0.33, **kwargs):
         self.hval = hval
+        hlabel = "" if hval is None else "@H=%.2f" % hval
         self.times = times
         self.hindex = hindex
         if cumulative is None:
@@ -400,7 +401,7 @@ class MoCompletenessAtTimeMetric(BaseMoMetric):
             # then cumulative->True
             if "metric_name" not in kwargs:
                 self.cumulative = True
-                metric_name = "CumulativeCompleteness@Time@H=%.2f" % self.hval
+                metric_name = "CumulativeCompleteness@Time" + hlabel
             else:
                 #  'metric_name' in kwargs:
                 metric_name = kwargs.pop("metric_name")
@@ -417,9 +418,9 @@ class MoCompletenessAtTimeMetric(BaseMoMetric):
                     warnings.warn(f"Completeness metric_name is {metric_name} but cumulative is True")
             else:
                 if self.cumulative:
-                    metric_name = "CumulativeCompleteness@Time@H=%.2f" % self.hval
+                    metric_name = "CumulativeCompleteness@Time" + hlabel
                 else:
-                    metric_name = "DifferentialCompleteness@Time@H=%.2f" % self.hval
+                    metric_name = "DifferentialCompleteness@Time" + hlabel
         self._set_labels()
         super().__init__(metric_name=metric_name, units=self.units, **kwargs)
 
-- 
2.43.0


From eb850892a163dabfff1d8a0cf9d247f26cbb0ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:28 +0000
Subject: [PATCH 061/159] fix: MeanValueAtHMetric used masked values with some
 reduce functions

---
 rubin_sim/maf/metrics/mo_summary_metrics.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/mo_summary_metrics.py b/rubin_sim/maf/metrics/mo_summary_metrics.py
index 814d726..643c979 100644
--- a/rubin_sim/maf/metrics/mo_summary_metrics.py
+++ b/rubin_sim/maf/metrics/mo_summary_metrics.py
@@ -241,7 +241,13 @@ class MeanValueAtHMetric(BaseMoMetric):
         if (self.h_mark < h_vals.min()) or (self.h_mark > h_vals.max()):
             warnings.warn("Desired H value of metric outside range of provided H values.")
             return None
-        value = np.interp(self.h_mark, h_vals, self.reduce_func(metric_vals.swapaxes(0, 1), axis=1))
+        # Reduce only the valid (unmasked) values at each H.
+        reduced = np.zeros(len(h_vals), float)
+        for i, vals in enumerate(np.ma.asarray(metric_vals).swapaxes(0, 1)):
+            good = vals.compressed()
+            if len(good) > 0:
+                reduced[i] = self.reduce_func(good)
+        value = np.interp(self.h_mark, h_vals, reduced)
         return value
 
 
-- 
2.43.0


From 73fd08699103c28c396651d3a0cff059ae410504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:35 +0000
Subject: [PATCH 062/159] fix: Sed.set_sed kept references to the caller's
 arrays when given fnu

---
 rubin_sim/phot_utils/sed.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/phot_utils/sed.py b/rubin_sim/phot_utils/sed.py
index ca1523c..90adaf3 100644
--- a/rubin_sim/phot_utils/sed.py
+++ b/rubin_sim/phot_utils/sed.py
@@ -480,8 +480,8 @@ class Sed:
             elif (isinstance(fnu, numpy.ndarray) is False) or (len(fnu) != len(self.wavelen)):
                 raise ValueError("(No Flambda) - Fnu must be numpy array of same length as Wavelen.")
             # Convert fnu to flambda.
-            self.wavelen, self.flambda = self.fnu_toflambda(wavelen, fnu)
-            self.fnu = fnu
+            self.fnu = numpy.copy(fnu)
+            self.wavelen, self.flambda = self.fnu_toflambda(self.wavelen, self.fnu)
         self.name = name
         return
 
-- 
2.43.0


From fa73260b841e4b8791bd956fe737740148109acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:35 +0000
Subject: [PATCH 063/159] fix: Sed.multiply_sed and renormalize_sed failed with
 default arguments

---
 rubin_sim/phot_utils/sed.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/phot_utils/sed.py b/rubin_sim/phot_utils/sed.py
index 90adaf3..5d12554 100644
--- a/rubin_sim/phot_utils/sed.py
+++ b/rubin_sim/phot_utils/sed.py
@@ -1146,11 +1146,11 @@ class Sed:
         """
 
         if wavelen_step is None:
-            wavelen_step = self._phys_params.wavelenstep
+            wavelen_step = 0.1
 
         # Check if the wavelength arrays are equal
         # (in which case do not resample)
-        if numpy.all(self.wavelen == other_sed.wavelen):
+        if numpy.array_equal(self.wavelen, other_sed.wavelen):
             flambda = self.flambda * other_sed.flambda
             new_sed = Sed(self.wavelen, flambda=flambda)
         else:
@@ -1430,7 +1430,7 @@ class Sed:
         # Start normalizing wavelen/flambda.
 
         if wavelen_step is None:
-            wavelen_step = self._phys_params.wavelenstep
+            wavelen_step = 0.1
 
         if normflux == "flambda":
             update_self = self._check_use_self(wavelen, flambda)
-- 
2.43.0


From 47c1e8352159c0b9baf0cb95ff09548d59a907b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:35 +0000
Subject: [PATCH 064/159] fix: Sed.write_sed(print_fnu=True) indexed a tuple

---
 rubin_sim/phot_utils/sed.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/rubin_sim/phot_utils/sed.py b/rubin_sim/phot_utils/sed.py
index 5d12554..88129bc 100644
--- a/rubin_sim/phot_utils/sed.py
+++ b/rubin_sim/phot_utils/sed.py
@@ -1565,7 +1565,6 @@ class Sed:
             print("# Wavelength(nm)  Flambda(ergs/cm^s/s/nm)", file=f)
         for i in range(0, len(wavelen), 1):
             if print_fnu:
-                fnu = self.flambda_tofnu(wavelen=wavelen, flambda=flambda)
                 print(wavelen[i], flambda[i], fnu[i], file=f)
             else:
                 print("%.2f %.7g" % (wavelen[i], flambda[i]), file=f)
-- 
2.43.0


From 74667b3d23593244010983daa2f51177331c1035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:35 +0000
Subject: [PATCH 065/159] fix: dust curves were zero at exactly 5.9 inverse
 microns

---
 rubin_sim/phot_utils/sed.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/phot_utils/sed.py b/rubin_sim/phot_utils/sed.py
index 88129bc..bf45589 100644
--- a/rubin_sim/phot_utils/sed.py
+++ b/rubin_sim/phot_utils/sed.py
@@ -981,7 +981,7 @@ class Sed:
             y = x[condition]
             a_x[condition] = 1.752 - 0.316 * y - 0.104 / ((y - 4.67) ** 2 + 0.341)
             b_x[condition] = -3.090 + 1.825 * y + 1.206 / ((y - 4.62) ** 2 + 0.263)
-        condition = (x > 5.9) & (x < 8)
+        condition = (x >= 5.9) & (x < 8)
         if len(a_x[condition]) > 0:
             y = x[condition]
             fa_x = numpy.empty(len(a_x[condition]), dtype=float)
@@ -1043,7 +1043,7 @@ class Sed:
             y = x[condition]
             a_x[condition] = 1.752 - 0.316 * y - 0.104 / ((y - 4.67) ** 2 + 0.341)
             b_x[condition] = -3.090 + 1.825 * y + 1.206 / ((y - 4.62) ** 2 + 0.263)
-        condition = (x > 5.9) & (x < 8)
+        condition = (x >= 5.9) & (x < 8)
         if len(a_x[condition]) > 0:
             y = x[condition]
             fa_x = numpy.empty(len(a_x[condition]), dtype=float)
-- 
2.43.0


From 28f6fd92f569da3bd1bff4958947490ac3f550ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:35 +0000
Subject: [PATCH 066/159] fix: Sed.clear_sed left a different magnitude
 zeropoint

---
 rubin_sim/phot_utils/sed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/phot_utils/sed.py b/rubin_sim/phot_utils/sed.py
index bf45589..ebc5fc3 100644
--- a/rubin_sim/phot_utils/sed.py
+++ b/rubin_sim/phot_utils/sed.py
@@ -652,7 +652,7 @@ class Sed:
         self.wavelen = None
         self.fnu = None
         self.flambda = None
-        self.zp = -8.9
+        self.zp = -2.5 * numpy.log10(3631)
         self.name = None
         return
 
-- 
2.43.0


From d5159061751b8f997cd7aaa1cf9c4251ed71099d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:35 +0000
Subject: [PATCH 067/159] fix: Sed.setup_phi_array sized its array for a
 different grid than the bandpasses

---
 rubin_sim/phot_utils/sed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/phot_utils/sed.py b/rubin_sim/phot_utils/sed.py
index ebc5fc3..27967c3 100644
--- a/rubin_sim/phot_utils/sed.py
+++ b/rubin_sim/phot_utils/sed.py
@@ -1593,7 +1593,7 @@ class Sed:
         phiarray = numpy.empty(
             (
                 len(bandpasslist),
-                numpy.size(numpy.arange(wavelen_min, wavelen_max + wavelen_step, wavelen_step)),
+                numpy.size(numpy.arange(wavelen_min, wavelen_max + wavelen_step / 2.0, wavelen_step)),
             ),
             dtype="float",
         )
-- 
2.43.0


From 294b5c01b463442a8f9033d11ca5622db66936f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:35 +0000
Subject: [PATCH 068/159] fix: the SED cache could not be read back with
 current numpy

---
 rubin_sim/phot_utils/sed.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/phot_utils/sed.py b/rubin_sim/phot_utils/sed.py
index 27967c3..6987513 100644
--- a/rubin_sim/phot_utils/sed.py
+++ b/rubin_sim/phot_utils/sed.py
@@ -103,6 +103,7 @@ class SedUnpickler(pickle.Unpickler):
         ("numpy", "ndarray"),
         ("numpy", "dtype"),
         ("numpy.core.multiarray", "_reconstruct"),
+        ("numpy._core.multiarray", "_reconstruct"),
     )
 
     def find_class(self, module, name):
@@ -126,8 +127,8 @@ class SedUnpickler(pickle.Unpickler):
                 return getattr(numpy, name)
             else:
                 raise RuntimeError("SedUnpickler not meant to load numpy.%s" % name)
-        elif module == "numpy.core.multiarray":
-            return getattr(numpy.core.multiarray, name)
+        elif module in ("numpy.core.multiarray", "numpy._core.multiarray"):
+            return super().find_class(module, name)
         else:
             raise RuntimeError("SedUnpickler cannot handle module %s" % module)
 
@@ -354,7 +355,7 @@ def cache_lsst_seds(wavelen_min=None, wavelen_max=None, cache_dir=None):
         _validate_sed_cache()
         _compare_cached_versus_uncached()
     except SedCacheError as ee:
-        print(ee.message)
+        print(ee)
         print("Cannot use cache of LSST SEDs")
         _global_lsst_sed_cache = None
         pass
-- 
2.43.0


From 61e527f5de4cf3fd43e65e241427cdd9be932303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:35 +0000
Subject: [PATCH 069/159] fix: Bandpass.read_throughput failed after reading a
 list

---
 rubin_sim/phot_utils/bandpass.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rubin_sim/phot_utils/bandpass.py b/rubin_sim/phot_utils/bandpass.py
index 02abb87..2570b50 100644
--- a/rubin_sim/phot_utils/bandpass.py
+++ b/rubin_sim/phot_utils/bandpass.py
@@ -146,6 +146,7 @@ class Bandpass:
                 "Was given list of files, instead of a single file. Using read_throughputList instead"
             )
             self.read_throughput_list(component_list=filename)
+            return
         # Filename is single file, now try to open file and read data.
         try:
             if filename.endswith(".gz"):
-- 
2.43.0


From 314226779fee5a4c52e6e0f91b3950057ee55796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:35 +0000
Subject: [PATCH 070/159] fix: Bandpass.multiply_throughputs failed for grids
 that differ

---
 rubin_sim/phot_utils/bandpass.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/rubin_sim/phot_utils/bandpass.py b/rubin_sim/phot_utils/bandpass.py
index 2570b50..b1a9196 100644
--- a/rubin_sim/phot_utils/bandpass.py
+++ b/rubin_sim/phot_utils/bandpass.py
@@ -340,14 +340,11 @@ class Bandpass:
         This method does not affect self.
         """
         # Resample wavelen_other/sb_other to match this bandpass.
-        if not np.all(self.wavelen == wavelen_other):
-            wavelen_other, sb_other = self.resample_bandpass(
-                wavelen=wavelen_other,
-                sb=sb_other,
-                wavelen_min=self.wavelen.min(),
-                wavelen_max=self.wavelen.max(),
-                wavelen_step=self.wavelen[1] - self.wavelen[0],
-            )
+        if not np.array_equal(self.wavelen, wavelen_other):
+            if (wavelen_other.min() > self.wavelen.max()) or (wavelen_other.max() < self.wavelen.min()):
+                raise Exception("No overlap between known wavelength range and desired wavelength range.")
+            f = interpolate.interp1d(wavelen_other, sb_other, fill_value=0, bounds_error=False)
+            sb_other = f(self.wavelen)
         # Make new memory copy of wavelen.
         wavelen_new = np.copy(self.wavelen)
         # Calculate new transmission - this is also new memory.
-- 
2.43.0


From ade9c9224f8e8996b3b01cc87ddb33a816ebdd21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:52 +0000
Subject: [PATCH 071/159] fix: Sed.renormalize_sed could not normalise in fnu

---
 rubin_sim/phot_utils/sed.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/phot_utils/sed.py b/rubin_sim/phot_utils/sed.py
index 6987513..ab2ae54 100644
--- a/rubin_sim/phot_utils/sed.py
+++ b/rubin_sim/phot_utils/sed.py
@@ -1490,7 +1490,7 @@ class Sed:
                 if fnu is None:
                     if flambda is None:
                         raise Exception("If passing wavelength, must also pass fnu or flambda.")
-                    wavelen, fnu = self.flambda_tofnu(wavelen, fnu)
+                    wavelen, fnu = self.flambda_tofnu(wavelen, flambda)
                 # Make a copy of the input data.
                 else:
                     fnu = numpy.copy(fnu)
@@ -1503,7 +1503,7 @@ class Sed:
                     + "is outside defined wavelength range."
                 )
             if gap == 0:
-                fnu_atpt = numpy.interp(lambdanorm, wavelen, flambda, left=None, right=None)
+                fnu_atpt = numpy.interp(lambdanorm, wavelen, fnu, left=None, right=None)
                 gapval = fnu_atpt
             else:
                 lambdapt = numpy.arange(lambdanorm - gap, lambdanorm + gap, wavelen_step, dtype=float)
@@ -1517,7 +1517,7 @@ class Sed:
                 )
             konst = normvalue / gapval
             fnu = fnu * konst
-            wavelen, flambda = self.fnutoflambda(wavelen, fnu)
+            wavelen, flambda = self.fnu_toflambda(wavelen, fnu)
         if update_self:
             self.wavelen = wavelen
             self.flambda = flambda
-- 
2.43.0


From ead4a2a2ef1011f346d6b589363c950a8dc9da13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:56 +0000
Subject: [PATCH 072/159] fix: calc_m5 source-noise term scales with gain
 squared

---
 rubin_sim/phot_utils/signaltonoise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/phot_utils/signaltonoise.py b/rubin_sim/phot_utils/signaltonoise.py
index fcaab27..6497b76 100644
--- a/rubin_sim/phot_utils/signaltonoise.py
+++ b/rubin_sim/phot_utils/signaltonoise.py
@@ -292,7 +292,7 @@ def calc_m5(skysed, total_bandpass, hardware, phot_params, fwhm_eff=0.83):
     v_n = calc_total_non_source_noise_sq(skysed, hardware, phot_params, fwhm_eff)
 
     counts_5sigma = (snr**2) / 2.0 / phot_params.gain + numpy.sqrt(
-        (snr**4) / 4.0 / phot_params.gain + (snr**2) * v_n
+        (snr**4) / 4.0 / phot_params.gain**2 + (snr**2) * v_n
     )
 
     # renormalize flatsource so that it has the required counts to be a
-- 
2.43.0


From 114d85ddbdef66ba9fb7b5547a36d97fb0d328fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:21 +0000
Subject: [PATCH 073/159] fix: ChebyFits failed segments: as_matrix no longer
 exists in pandas

---
 rubin_sim/moving_objects/cheby_fits.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/moving_objects/cheby_fits.py b/rubin_sim/moving_objects/cheby_fits.py
index a056d31..49d8f6f 100644
--- a/rubin_sim/moving_objects/cheby_fits.py
+++ b/rubin_sim/moving_objects/cheby_fits.py
@@ -276,7 +276,7 @@ class ChebyFits:
             counter += 1
         if (self.t_span % length) > num_tolerance or (length <= 0):
             # Add this entire segment into the failed list.
-            for obj_id in self.orbits_obj.orbits["obj_id"].as_matrix():
+            for obj_id in self.orbits_obj.orbits["obj_id"].values:
                 self.failed.append((obj_id, self.t_start, self.t_end))
             raise ValueError(
                 "Could not find a suitable length for the timespan (start %f, span %f), "
@@ -380,7 +380,7 @@ class ChebyFits:
             counter += 1
         if counter > max_iterations or length <= 0:
             # Add this entire segment into the failed list.
-            for obj_id in self.orbits_obj.orbits["obj_id"].as_matrix():
+            for obj_id in self.orbits_obj.orbits["obj_id"].values:
                 self.failed.append((obj_id, self.t_start, self.t_end))
             error_message = "Could not find good segment length to meet skyTolerance %f" % (
                 self.sky_tolerance
-- 
2.43.0


From fcacd518debade1f8118f75cdc144c78ee5d2b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:17 +0000
Subject: [PATCH 074/159] fix: ChebyFits reports the magnitude residual, not
 the distance one

---
 rubin_sim/moving_objects/cheby_fits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/moving_objects/cheby_fits.py b/rubin_sim/moving_objects/cheby_fits.py
index 49d8f6f..73c36b9 100644
--- a/rubin_sim/moving_objects/cheby_fits.py
+++ b/rubin_sim/moving_objects/cheby_fits.py
@@ -534,7 +534,7 @@ class ChebyFits:
                 self.resids["t_end"].append(t_segment_end)
                 self.resids["pos"].append(max_pos_resid)
                 self.resids["geo_dist"].append(max_resids["geo_dist"])
-                self.resids["vmag"].append(max_resids["geo_dist"])
+                self.resids["vmag"].append(max_resids["vmag"])
                 self.resids["elongation"].append(max_resids["elongation"])
 
     def _subdivide_segment(self, orbit_obj, ephs):
-- 
2.43.0


From 73fb8bdc22f3a11b2e5e47e0a761656a94ad5968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:17 +0000
Subject: [PATCH 075/159] fix: ChebyFits.write append mode

---
 rubin_sim/moving_objects/cheby_fits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/moving_objects/cheby_fits.py b/rubin_sim/moving_objects/cheby_fits.py
index 73c36b9..63d2bd8 100644
--- a/rubin_sim/moving_objects/cheby_fits.py
+++ b/rubin_sim/moving_objects/cheby_fits.py
@@ -605,7 +605,7 @@ class ChebyFits:
         )
 
         if append:
-            open_mode = "aw"
+            open_mode = "a"
         else:
             open_mode = "w"
         # Write a header to the coefficients file, if writing to a new file:
-- 
2.43.0


From 06cd383d1b2bed99bf0f06b66fe083308465e224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:17 +0000
Subject: [PATCH 076/159] fix: ChebyFits failed list holds object ids

---
 rubin_sim/moving_objects/cheby_fits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/moving_objects/cheby_fits.py b/rubin_sim/moving_objects/cheby_fits.py
index 63d2bd8..d487e90 100644
--- a/rubin_sim/moving_objects/cheby_fits.py
+++ b/rubin_sim/moving_objects/cheby_fits.py
@@ -517,7 +517,7 @@ class ChebyFits:
                     "Fit failed for orbit_obj %s for times between %f and %f"
                     % (obj_id, t_segment_start, t_segment_end)
                 )
-                self.failed.append((orbit_obj.orbits["obj_id"], t_segment_start, t_segment_end))
+                self.failed.append((obj_id, t_segment_start, t_segment_end))
             else:
                 # Consolidate items into the tracked coefficient values.
                 self.coeffs["obj_id"].append(obj_id)
-- 
2.43.0


From 2839731b42a0d080b8f4e0acb6fcf561c63b6c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:17 +0000
Subject: [PATCH 077/159] fix: ChebyFits segment length rounded to zero is a
 failed fit, not a ZeroDivisionError

---
 rubin_sim/moving_objects/cheby_fits.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/moving_objects/cheby_fits.py b/rubin_sim/moving_objects/cheby_fits.py
index d487e90..daa5d86 100644
--- a/rubin_sim/moving_objects/cheby_fits.py
+++ b/rubin_sim/moving_objects/cheby_fits.py
@@ -267,14 +267,14 @@ class ChebyFits:
         counter = 0
         prev_int_factor = 0
         num_tolerance = 10.0 ** (-1 * (self.n_decimal - 1))
-        while ((self.t_span % length) > num_tolerance) and (length > 0) and (counter < 20):
+        while (length > 0) and ((self.t_span % length) > num_tolerance) and (counter < 20):
             int_factor = int(self.t_span / length) + 1  # round up / ceiling
             if int_factor == prev_int_factor:
                 int_factor = prev_int_factor + 1
             prev_int_factor = int_factor
             length = round(self.t_span / int_factor, self.n_decimal)
             counter += 1
-        if (self.t_span % length) > num_tolerance or (length <= 0):
+        if (length <= 0) or (self.t_span % length) > num_tolerance:
             # Add this entire segment into the failed list.
             for obj_id in self.orbits_obj.orbits["obj_id"].values:
                 self.failed.append((obj_id, self.t_start, self.t_end))
-- 
2.43.0


From af50dc3f71e5075706a0e107f81a5202dc77da8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:17 +0000
Subject: [PATCH 078/159] fix: ChebyValues.set_coefficients keeps the fit
 object intact and names missing keys

---
 rubin_sim/moving_objects/cheby_values.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rubin_sim/moving_objects/cheby_values.py b/rubin_sim/moving_objects/cheby_values.py
index 6137443..6f6a3df 100644
--- a/rubin_sim/moving_objects/cheby_values.py
+++ b/rubin_sim/moving_objects/cheby_values.py
@@ -46,14 +46,14 @@ class ChebyValues:
             ChebyFits object, with attribute 'coeffs' -
             a dictionary of lists of coefficients.
         """
-        self.coeffs = cheby_fits.coeffs
         # Convert list of coefficients into numpy arrays.
-        for k in self.coeffs:
-            self.coeffs[k] = np.array(self.coeffs[k])
+        self.coeffs = {}
+        for k in cheby_fits.coeffs:
+            self.coeffs[k] = np.array(cheby_fits.coeffs[k])
         # Check that expected values were received.
         missing_keys = set(self.coeff_keys) - set(self.coeffs)
         if len(missing_keys) > 0:
-            raise ValueError("Expected to find key(s) %s in coefficients." % " ".join(list[missing_keys]))
+            raise ValueError("Expected to find key(s) %s in coefficients." % " ".join(list(missing_keys)))
         self.coeffs["meanRA"] = self.coeffs["ra"].swapaxes(0, 1)[0]
         self.coeffs["meanDec"] = self.coeffs["dec"].swapaxes(0, 1)[0]
 
-- 
2.43.0


From ed9173b2fd4f3c70e3a43e5309ba1f7a8f5ea0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:17 +0000
Subject: [PATCH 079/159] fix: ChebyValues.get_ephemerides assigns values to
 rows by object

---
 rubin_sim/moving_objects/cheby_values.py | 54 ++++++++++--------------
 1 file changed, 23 insertions(+), 31 deletions(-)

diff --git a/rubin_sim/moving_objects/cheby_values.py b/rubin_sim/moving_objects/cheby_values.py
index 6f6a3df..aedca62 100644
--- a/rubin_sim/moving_objects/cheby_values.py
+++ b/rubin_sim/moving_objects/cheby_values.py
@@ -185,47 +185,39 @@ class ChebyValues:
         # Find subset of segments which match obj_id, if specified.
         if obj_ids is None:
             obj_match = np.ones(len(self.coeffs["obj_id"]), dtype=bool)
-            ephemerides["obj_id"] = np.unique(self.coeffs["obj_id"])
         else:
             if isinstance(obj_ids, str) or isinstance(obj_ids, int):
                 obj_ids = np.array([obj_ids])
             obj_match = np.isin(self.coeffs["obj_id"], obj_ids)
-            ephemerides["obj_id"] = obj_ids
+            if set(self.coeffs["obj_id"][obj_match]) != set(obj_ids):
+                raise ValueError(
+                    "Did not find expected match between obj_ids provided and ephemeride obj_ids."
+                )
+        # Objects are returned in the order they appear in the coefficients.
+        segment_ids = self.coeffs["obj_id"][obj_match]
+        unique_ids, first_segments, inverse = np.unique(segment_ids, return_index=True, return_inverse=True)
+        ephemerides["obj_id"] = segment_ids[np.sort(first_segments)]
+        obj_rows = {obj_id: i for i, obj_id in enumerate(ephemerides["obj_id"])}
+        # Each object's own coverage, for each of its segments.
+        t_start = self.coeffs["t_start"][obj_match]
+        t_end = self.coeffs["t_end"][obj_match]
+        obj_start = np.array([t_start[inverse == i].min() for i in range(len(unique_ids))])[inverse]
+        obj_end = np.array([t_end[inverse == i].max() for i in range(len(unique_ids))])[inverse]
         # Now find ephemeris values.
         ephemerides["time"] = np.zeros((len(ephemerides["obj_id"]), ntimes), float) + times
         for k in self.ephemeris_keys:
-            ephemerides[k] = np.zeros((len(ephemerides["obj_id"]), ntimes), float)
+            ephemerides[k] = np.full((len(ephemerides["obj_id"]), ntimes), np.nan)
         for it, t in enumerate(times):
             # Find subset of segments which contain the appropriate time.
-            # Look for simplest subset first.
-            segments = np.where(
-                (self.coeffs["t_start"][obj_match] <= t) & (self.coeffs["t_end"][obj_match] > t)
-            )[0]
-            if len(segments) == 0:
-                seg_start = self.coeffs["t_start"][obj_match].min()
-                seg_end = self.coeffs["t_end"][obj_match].max()
-                if seg_start > t or seg_end < t:
-                    if not extrapolate:
-                        for k in self.ephemeris_keys:
-                            ephemerides[k][:, it] = np.nan
-                    else:
-                        # Find the segments to use to extrapolate the times.
-                        if seg_start > t:
-                            segments = np.where(self.coeffs["t_start"][obj_match] == seg_start)[0]
-                        if seg_end < t:
-                            segments = np.where(self.coeffs["t_end"][obj_match] == seg_end)[0]
-                elif seg_end == t:
-                    # Not extrapolating, but outside the
-                    # simple match case above.
-                    segments = np.where(self.coeffs["t_end"][obj_match] == seg_end)[0]
-            for i, segmentIdx in enumerate(segments):
+            match = (t_start <= t) & (t_end > t)
+            # The very end of an object's coverage is included.
+            match |= (t_end == t) & (t_end == obj_end)
+            if extrapolate:
+                match |= (t < obj_start) & (t_start == obj_start)
+                match |= (t > obj_end) & (t_end == obj_end)
+            for segmentIdx in np.where(match)[0]:
+                i = obj_rows[segment_ids[segmentIdx]]
                 ephemeris = self._eval_segment(segmentIdx, t, obj_match, mask=False)
                 for k in self.ephemeris_keys:
                     ephemerides[k][i][it] = ephemeris[k]
-                ephemerides["obj_id"][i] = self.coeffs["obj_id"][obj_match][segmentIdx]
-        if obj_ids is not None:
-            if set(ephemerides["obj_id"]) != set(obj_ids):
-                raise ValueError(
-                    "Did not find expected match between obj_ids provided and ephemeride obj_ids."
-                )
         return ephemerides
-- 
2.43.0


From d52af1893159a16cc4e75ba2eb7823dcfdecff03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:04 +0000
Subject: [PATCH 080/159] fix: ChebyFits segments start at their first point
 despite rounding

---
 rubin_sim/moving_objects/cheby_fits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/moving_objects/cheby_fits.py b/rubin_sim/moving_objects/cheby_fits.py
index daa5d86..adb7d28 100644
--- a/rubin_sim/moving_objects/cheby_fits.py
+++ b/rubin_sim/moving_objects/cheby_fits.py
@@ -480,7 +480,7 @@ class ChebyFits:
                 # which are relevant for this segment
                 # (at the default segment size).
                 t_segment_end = round(t_segment_start + self.length, self.n_decimal)
-                subset = np.where((times >= t_segment_start) & (times < t_segment_end + eps))
+                subset = np.where((times >= t_segment_start - eps) & (times < t_segment_end + eps))
                 self.calc_one_segment(orbit_obj, e[subset])
                 t_segment_start = t_segment_end
 
-- 
2.43.0


From 7429d801af6c4b0f37077cf7b611f2590daf2259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:39 +0000
Subject: [PATCH 081/159] fix: Orbits equality compares every column

---
 rubin_sim/moving_objects/orbits.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/moving_objects/orbits.py b/rubin_sim/moving_objects/orbits.py
index e33f0bf..7080c48 100644
--- a/rubin_sim/moving_objects/orbits.py
+++ b/rubin_sim/moving_objects/orbits.py
@@ -80,11 +80,14 @@ class Orbits:
         if isinstance(other_orbits, Orbits):
             if self.orb_format != other_orbits.orb_format:
                 return False
+            if self.orb_format is None:
+                return True
+            if len(self) != len(other_orbits):
+                return False
             for col in self.data_cols[self.orb_format]:
                 if not np.all(self.orbits[col].values == other_orbits.orbits[col].values):
                     return False
-                else:
-                    return True
+            return True
         else:
             return False
 
-- 
2.43.0


From af842b47bb89ca82a68fecd5658a039fc84aab53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:39 +0000
Subject: [PATCH 082/159] fix: Orbits.set_orbits works on its own copy

---
 rubin_sim/moving_objects/orbits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/moving_objects/orbits.py b/rubin_sim/moving_objects/orbits.py
index 7080c48..5e6e6eb 100644
--- a/rubin_sim/moving_objects/orbits.py
+++ b/rubin_sim/moving_objects/orbits.py
@@ -129,7 +129,7 @@ class Orbits:
         elif isinstance(orbits, pd.DataFrame):
             # This was a pandas dataframe ..
             # but we probably want to drop the index and recount.
-            orbits.reset_index(drop=True, inplace=True)
+            orbits = orbits.reset_index(drop=True)
 
         if "index" in orbits:
             del orbits["index"]
-- 
2.43.0


From cfb5f46a8fa187f7d46c48da1cbb51498c67ff51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:39 +0000
Subject: [PATCH 083/159] fix: Orbits recognises S3MID and objid(int) columns

---
 rubin_sim/moving_objects/orbits.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/moving_objects/orbits.py b/rubin_sim/moving_objects/orbits.py
index 5e6e6eb..93dafe2 100644
--- a/rubin_sim/moving_objects/orbits.py
+++ b/rubin_sim/moving_objects/orbits.py
@@ -432,7 +432,8 @@ class Orbits:
             "!!OID",
             "!!S3MID",
             "OID",
-            "S3MID" "objid(int)",
+            "S3MID",
+            "objid(int)",
             "full_name",
             "#name",
         ]
-- 
2.43.0


From 3354913bf336e890f6357cc74ef2cb005f5e8a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:39 +0000
Subject: [PATCH 084/159] fix: negative inclinations are rejected

---
 rubin_sim/moving_objects/orbits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/moving_objects/orbits.py b/rubin_sim/moving_objects/orbits.py
index 93dafe2..71e178d 100644
--- a/rubin_sim/moving_objects/orbits.py
+++ b/rubin_sim/moving_objects/orbits.py
@@ -487,7 +487,7 @@ class Orbits:
             if np.min(orbits["inc"]) < 0:
                 negative_incs = np.where(orbits["inc"].values < 0)[0]
                 negative_ids = orbits["obj_id"].values[negative_incs]
-                ValueError("Negative orbital inclinations not supported. Problem obj_ids=%s" % negative_ids)
+                raise ValueError("Negative orbital inclinations not supported. Problem obj_ids=%s" % negative_ids)
 
         # Validate and assign orbits to self.
         self.set_orbits(orbits)
-- 
2.43.0


From fec532fe29d1ff50f1c9f87ddf30a9f2fcb5b464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:09 +0000
Subject: [PATCH 085/159] fix: Orbits items keep the element format of their
 set

---
 rubin_sim/moving_objects/orbits.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/rubin_sim/moving_objects/orbits.py b/rubin_sim/moving_objects/orbits.py
index 71e178d..97854ba 100644
--- a/rubin_sim/moving_objects/orbits.py
+++ b/rubin_sim/moving_objects/orbits.py
@@ -66,15 +66,16 @@ class Orbits:
         return len(self.orbits)
 
     def __getitem__(self, i):
+        orbits = self.orbits.iloc[i]
+        if isinstance(orbits, pd.Series):
+            orbits = pd.DataFrame([orbits])
         orb = Orbits()
-        orb.set_orbits(self.orbits.iloc[i])
+        orb.set_orbits(orbits.assign(FORMAT=self.orb_format))
         return orb
 
     def __iter__(self):
-        for i, orbit in self.orbits.iterrows():
-            orb = Orbits()
-            orb.set_orbits(orbit)
-            yield orb
+        for i in range(len(self)):
+            yield self[i]
 
     def __eq__(self, other_orbits):
         if isinstance(other_orbits, Orbits):
-- 
2.43.0


From fd52d058a7f8ef9460cf727e818546b726b92f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:09 +0000
Subject: [PATCH 086/159] fix: read_orbits finds the header of delimited files

---
 rubin_sim/moving_objects/orbits.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/moving_objects/orbits.py b/rubin_sim/moving_objects/orbits.py
index 97854ba..405c180 100644
--- a/rubin_sim/moving_objects/orbits.py
+++ b/rubin_sim/moving_objects/orbits.py
@@ -1,5 +1,6 @@
 __all__ = ("Orbits",)
 
+import re
 import warnings
 
 import numpy as np
@@ -310,7 +311,11 @@ class Orbits:
             with open(orbit_file, "r") as fp:
                 headervalues = None
                 for line in fp:
-                    values = line.split()
+                    if delim is None:
+                        values = line.split()
+                    else:
+                        sep = re.escape(delim) if len(delim) == 1 else delim
+                        values = [v.strip() for v in re.split(sep, line.strip())]
                     try:
                         # If it is a valid orbit line,
                         # we expect column 3 to be a number.
-- 
2.43.0


From 8032b865ca0e53dc86ab20946776530c1e98922e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:09 +0000
Subject: [PATCH 087/159] fix: ephemeris errors are reported

---
 rubin_sim/moving_objects/ooephemerides.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/rubin_sim/moving_objects/ooephemerides.py b/rubin_sim/moving_objects/ooephemerides.py
index 8cbb6d7..53a786f 100644
--- a/rubin_sim/moving_objects/ooephemerides.py
+++ b/rubin_sim/moving_objects/ooephemerides.py
@@ -600,12 +600,7 @@ class PyOrbEphemerides:
         # t = time.time()
         eph_times = self._convert_times(times, time_scale=time_scale)
         if eph_type.lower() == "basic":
-            oorb_ephs, err = oo.pyoorb.oorb_ephemeris_basic(
-                in_orbits=self.oorb_elem,
-                in_obscode=obscode,
-                in_date_ephems=eph_times,
-                in_dynmodel=eph_mode,
-            )
+            oorb_ephs = self._generate_oorb_ephs_basic(eph_times, obscode=obscode, eph_mode=eph_mode)
             ephs = self._convert_oorb_ephs_basic(oorb_ephs, by_object=by_object)
         elif eph_type.lower() == "full":
             oorb_ephs = self._generate_oorb_ephs_full(eph_times, obscode=obscode, eph_mode=eph_mode)
-- 
2.43.0


From d6359fe1a4104e16628262d45eb5a0b4b505c96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:59 +0000
Subject: [PATCH 088/159] fix: headerless CART orbit files are read as
 cartesian

---
 rubin_sim/moving_objects/orbits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/moving_objects/orbits.py b/rubin_sim/moving_objects/orbits.py
index 405c180..7a5c54f 100644
--- a/rubin_sim/moving_objects/orbits.py
+++ b/rubin_sim/moving_objects/orbits.py
@@ -401,7 +401,7 @@ class Orbits:
 
             if orbits["FORMAT"][0] == "KEP":
                 orbits.columns = names_kep
-            elif orbits["FORMAT"][0] == "CAR":
+            elif orbits["FORMAT"][0] in ("CAR", "CART"):
                 orbits.columns = names_car
 
         else:
-- 
2.43.0


From 09a2f861476d24521174e80430a85b7303ecbff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:23 +0000
Subject: [PATCH 089/159] fix: Orbits can be set from a single numpy record

---
 rubin_sim/moving_objects/orbits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/moving_objects/orbits.py b/rubin_sim/moving_objects/orbits.py
index 7a5c54f..fba31ee 100644
--- a/rubin_sim/moving_objects/orbits.py
+++ b/rubin_sim/moving_objects/orbits.py
@@ -127,7 +127,7 @@ class Orbits:
             orbits = pd.DataFrame.from_records(orbits)
         elif isinstance(orbits, np.record):
             # This was a single object in a numpy array
-            orbits = pd.DataFrame.from_records([orbits], columns=orbits.dtype.names)
+            orbits = pd.DataFrame.from_records([orbits.tolist()], columns=orbits.dtype.names)
         elif isinstance(orbits, pd.DataFrame):
             # This was a pandas dataframe ..
             # but we probably want to drop the index and recount.
-- 
2.43.0


From bbc35db386e1f16f18adea004f990ffa07df5a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:20 +0000
Subject: [PATCH 090/159] fix: fix: rectangular field of view across RA 0 and
 with radians

---
 rubin_sim/moving_objects/base_obs.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/moving_objects/base_obs.py b/rubin_sim/moving_objects/base_obs.py
index 0e2ae63..12191d5 100644
--- a/rubin_sim/moving_objects/base_obs.py
+++ b/rubin_sim/moving_objects/base_obs.py
@@ -395,8 +395,14 @@ class BaseObs:
         return self._sso_in_rectangle_fov(ephems, obs_data, self.x_tol, self.y_tol)
 
     def _sso_in_rectangle_fov(self, ephems, obs_data, x_tol, y_tol):
-        delta_dec = np.abs(ephems["dec"] - obs_data[self.obs_dec])
-        delta_ra = np.abs((ephems["ra"] - obs_data[self.obs_ra]) * np.cos(np.radians(obs_data[self.obs_dec])))
+        obs_ra = obs_data[self.obs_ra]
+        obs_dec = obs_data[self.obs_dec]
+        if not self.obs_degrees:
+            obs_ra = np.degrees(obs_ra)
+            obs_dec = np.degrees(obs_dec)
+        delta_dec = np.abs(ephems["dec"] - obs_dec)
+        # Difference in RA is taken the short way around the circle.
+        delta_ra = np.abs((ephems["ra"] - obs_ra + 180.0) % 360.0 - 180.0) * np.cos(np.radians(obs_dec))
         idx_obs = np.where((delta_dec <= y_tol) & (delta_ra <= x_tol))[0]
         return idx_obs
 
-- 
2.43.0


From 4b94b4e9998cbc86f7a520ef10e9b9810797ab05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:20 +0000
Subject: [PATCH 091/159] fix: fix: circular field of view test with a single
 visit

---
 rubin_sim/moving_objects/base_obs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/moving_objects/base_obs.py b/rubin_sim/moving_objects/base_obs.py
index 12191d5..0ad8fb0 100644
--- a/rubin_sim/moving_objects/base_obs.py
+++ b/rubin_sim/moving_objects/base_obs.py
@@ -371,7 +371,8 @@ class BaseObs:
                 obs_data[self.obs_ra],
                 obs_data[self.obs_dec],
             )
-        idx_obs = np.where(sep <= r_fov)[0]
+        # angular_separation returns a scalar for a single pointing.
+        idx_obs = np.where(np.atleast_1d(sep <= r_fov))[0]
         return idx_obs
 
     def sso_in_rectangle_fov(self, ephems, obs_data):
-- 
2.43.0


From 8989527c163e34549a1c0cdce3d8e39d0749f5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:20 +0000
Subject: [PATCH 092/159] fix: fix: reading filters resets the cached colors

---
 rubin_sim/moving_objects/base_obs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rubin_sim/moving_objects/base_obs.py b/rubin_sim/moving_objects/base_obs.py
index 0ad8fb0..f9b3a57 100644
--- a/rubin_sim/moving_objects/base_obs.py
+++ b/rubin_sim/moving_objects/base_obs.py
@@ -295,6 +295,8 @@ class BaseObs:
         if v_dir is None:
             v_dir = os.path.join(get_data_dir(), "movingObjects")
         self.filterlist = filterlist
+        # Any colors calculated with previous filters are no longer valid.
+        self.colors = {}
         # Read filter throughput curves from disk.
         self.lsst = {}
         for f in self.filterlist:
-- 
2.43.0


From c1303717657d39ff37c461477de0aa707e811dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:20 +0000
Subject: [PATCH 093/159] fix: fix: moving object observations of objects with
 string ids

---
 rubin_sim/moving_objects/direct_obs.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/moving_objects/direct_obs.py b/rubin_sim/moving_objects/direct_obs.py
index db3040f..b598803 100644
--- a/rubin_sim/moving_objects/direct_obs.py
+++ b/rubin_sim/moving_objects/direct_obs.py
@@ -232,7 +232,13 @@ class DirectObs(BaseObs):
             "dmag_trail",
             "dmag_detect",
         ]
-        types = [int, int, "<U40"] + [float] * (len(names) - 3)
+        # Object ids can be numbers or strings.
+        obj_ids = orbits.orbits["obj_id"].to_numpy()
+        if np.issubdtype(obj_ids.dtype, np.number):
+            id_type = obj_ids.dtype
+        else:
+            id_type = obj_ids.astype(str).dtype
+        types = [id_type, int, "<U40"] + [float] * (len(names) - 3)
 
         # XXX--for now, copy over some observation info. In the future,
         # just index it to the observations and only transfer observationId
-- 
2.43.0


From a5a2febaa9a8b6e557f65f84ed791d52b26c6036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:20 +0000
Subject: [PATCH 094/159] fix: fix: moving object observations with full
 ephemerides

---
 rubin_sim/moving_objects/direct_obs.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/moving_objects/direct_obs.py b/rubin_sim/moving_objects/direct_obs.py
index b598803..bc5c990 100644
--- a/rubin_sim/moving_objects/direct_obs.py
+++ b/rubin_sim/moving_objects/direct_obs.py
@@ -344,7 +344,13 @@ class DirectObs(BaseObs):
                             100.0 * float(len(idx_obs)) / len(times),
                         )
                     )
-                object_observations = np.zeros(idx_obs.size, dtype=output_dtype)
+                if "trueAnomaly" not in ephs.dtype.names:
+                    # Full ephemerides have different (and more) columns.
+                    full_dtype = [dt for dt in output_dtype if dt[0] != "trueAnomaly"]
+                    full_dtype += [(n, float) for n in ephs.dtype.names if n not in names]
+                    object_observations = np.zeros(idx_obs.size, dtype=full_dtype)
+                else:
+                    object_observations = np.zeros(idx_obs.size, dtype=output_dtype)
                 object_observations["obj_id"] = objid
                 object_observations[self.obs_id_col] = obs_data[rough_idx_obs][idx_obs][self.obs_id_col]
                 object_observations["sedname"] = sedname
-- 
2.43.0


From 0c59d86814d5fc7c05b68eff05b5344305aff1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:20 +0000
Subject: [PATCH 095/159] fix: fix: rectangular field of view with precomputed
 positions

---
 rubin_sim/moving_objects/direct_obs.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/moving_objects/direct_obs.py b/rubin_sim/moving_objects/direct_obs.py
index bc5c990..e17f24f 100644
--- a/rubin_sim/moving_objects/direct_obs.py
+++ b/rubin_sim/moving_objects/direct_obs.py
@@ -210,6 +210,9 @@ class DirectObs(BaseObs):
             # Now we can use a small tolerance for objects when they are moving
             # slowly across the sky.
             object_tol = np.maximum(d1, d2) + self.pre_comp_tol
+            fov_extent = self.r_fov
+            if self.footprint == "rectangle":
+                fov_extent = max(fov_extent, np.hypot(self.x_tol, self.y_tol))
 
         # output dtype
         names = [
@@ -314,7 +317,7 @@ class DirectObs(BaseObs):
                 rough_idx_obs = self._sso_in_circle_fov(
                     object_positions[i][object_indx],
                     obs_data,
-                    self.r_fov + object_tol[i][object_indx],
+                    fov_extent + object_tol[i][object_indx],
                 )
             if len(rough_idx_obs) > 0:
                 # Generate exact ephemerides for these times.
-- 
2.43.0


From db5f1ae74ca283d3b8a918145e9aee25021c8016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:20 +0000
Subject: [PATCH 096/159] fix: fix: DirectObs.run returns an empty table when
 no object is near a visit

---
 rubin_sim/moving_objects/direct_obs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rubin_sim/moving_objects/direct_obs.py b/rubin_sim/moving_objects/direct_obs.py
index e17f24f..656c8fc 100644
--- a/rubin_sim/moving_objects/direct_obs.py
+++ b/rubin_sim/moving_objects/direct_obs.py
@@ -387,5 +387,7 @@ class DirectObs(BaseObs):
             # Transfer over info from pointing info array to result array
             for key in transfer_cols:
                 result[key] = obs_data[key][indx_map_visit_to_object]
+        else:
+            result = np.zeros(0, dtype=output_dtype)
 
         return result
-- 
2.43.0


From 3649cd80801721c93a557ffe667ee7aa4e0949ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:20 +0000
Subject: [PATCH 097/159] fix: fix: make_lsst_obs output path joined out_dir
 twice

---
 rubin_sim/moving_objects/make_lsst_obs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/moving_objects/make_lsst_obs.py b/rubin_sim/moving_objects/make_lsst_obs.py
index 8943417..04e93e5 100755
--- a/rubin_sim/moving_objects/make_lsst_obs.py
+++ b/rubin_sim/moving_objects/make_lsst_obs.py
@@ -274,7 +274,7 @@ def make_lsst_obs():
     )
 
     np.savez(
-        os.path.join(args.out_dir, args.output_file),
+        args.output_file,
         object_observations=object_observations,
         info=d_obs.info,
     )
-- 
2.43.0


From 03a74847fbad8c506ebb8936f35f557114c4d34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:28 +0000
Subject: [PATCH 098/159] fix: sky model set_params with single values

---
 rubin_sim/skybrightness/sky_model.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/rubin_sim/skybrightness/sky_model.py b/rubin_sim/skybrightness/sky_model.py
index b0518f5..31e15c7 100644
--- a/rubin_sim/skybrightness/sky_model.py
+++ b/rubin_sim/skybrightness/sky_model.py
@@ -604,12 +604,13 @@ class SkyModel:
         self.sun_eclip_lon = convert_func(sun_eclip_lon)
         self.azs = convert_func(azs)
         if alts is not None:
-            self.airmass = 1.0 / np.cos(np.pi / 2.0 - convert_func(alts))
-            self.alts = convert_func(alts)
+            self.alts = np.atleast_1d(convert_func(alts))
+            self.airmass = 1.0 / np.cos(np.pi / 2.0 - self.alts)
         else:
-            self.airmass = airmass
-            self.alts = np.pi / 2.0 - np.arccos(1.0 / airmass)
-        self.moon_targ_sep = haversine(self.azs, self.alts, moon_az, self.moon_alt)
+            self.airmass = np.atleast_1d(airmass)
+            self.alts = np.pi / 2.0 - np.arccos(1.0 / self.airmass)
+        self.azs = np.broadcast_to(self.azs, self.alts.shape).copy()
+        self.moon_targ_sep = haversine(self.azs, self.alts, self.moon_az, self.moon_alt)
         self.npts = np.size(self.airmass)
         self._init_points()
 
-- 
2.43.0


From 3295f0312b3b433e8b6192301e87221d8129e4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:28 +0000
Subject: [PATCH 099/159] fix: sky model set_params with no point in range kept
 the previous sky

---
 rubin_sim/skybrightness/sky_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rubin_sim/skybrightness/sky_model.py b/rubin_sim/skybrightness/sky_model.py
index 31e15c7..a41e9fd 100644
--- a/rubin_sim/skybrightness/sky_model.py
+++ b/rubin_sim/skybrightness/sky_model.py
@@ -646,6 +646,7 @@ class SkyModel:
             self._interp_sky()
         else:
             warnings.warn("No points in interpolation range")
+            self.spec = np.full((self.npts, self.npix), np.nan)
 
     def _interp_sky(self):
         """
-- 
2.43.0


From 3cb762952a95923d22f6bd10227bf5142410e4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:28 +0000
Subject: [PATCH 100/159] fix: sky model return_mags from spectra after
 set_params

---
 rubin_sim/skybrightness/sky_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/skybrightness/sky_model.py b/rubin_sim/skybrightness/sky_model.py
index a41e9fd..4b2894d 100644
--- a/rubin_sim/skybrightness/sky_model.py
+++ b/rubin_sim/skybrightness/sky_model.py
@@ -761,7 +761,7 @@ class SkyModel:
                 min_wave = bandpasses[key].wavelen[is_through].min()
                 max_wave = bandpasses[key].wavelen[is_through].max()
                 in_band = np.where((self.wave >= min_wave) & (self.wave <= max_wave))
-                for i, ra in enumerate(self.ra):
+                for i in range(self.npts):
                     # Check that there is flux in the band,
                     # otherwise calc_mag fails
                     if np.max(self.spec[i, in_band]) > 0:
-- 
2.43.0


From 9843896fbd83f85487b8ebd43922e0640a7abb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:28 +0000
Subject: [PATCH 101/159] fix: set_ra_dec_alt_az_mjd with numpy scalars

---
 rubin_sim/skybrightness/sky_model.py | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/rubin_sim/skybrightness/sky_model.py b/rubin_sim/skybrightness/sky_model.py
index 4b2894d..7161f9b 100644
--- a/rubin_sim/skybrightness/sky_model.py
+++ b/rubin_sim/skybrightness/sky_model.py
@@ -345,17 +345,10 @@ class SkyModel:
         if self.mags:
             self.npix = len(self.filter_names)
         # Wrap in array just in case single points were passed
-        if not type(ra).__module__ == np.__name__:
-            if np.size(ra) == 1:
-                ra = np.array([ra]).ravel()
-                dec = np.array([dec]).ravel()
-                alt = np.array(alt).ravel()
-                az = np.array(az).ravel()
-            else:
-                ra = np.array(ra)
-                dec = np.array(dec)
-                alt = np.array(alt)
-                az = np.array(az)
+        ra = np.atleast_1d(ra)
+        dec = np.atleast_1d(dec)
+        alt = np.atleast_1d(alt)
+        az = np.atleast_1d(az)
         if degrees:
             self.ra = np.radians(ra)
             self.dec = np.radians(dec)
-- 
2.43.0


From 6a749f6dc8134518338b90840b7d7899027686f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:28 +0000
Subject: [PATCH 102/159] fix: points without moonlight or twilight are not
 blanked because others have some

---
 rubin_sim/skybrightness/sky_model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/skybrightness/sky_model.py b/rubin_sim/skybrightness/sky_model.py
index 7161f9b..318af6f 100644
--- a/rubin_sim/skybrightness/sky_model.py
+++ b/rubin_sim/skybrightness/sky_model.py
@@ -679,8 +679,9 @@ class SkyModel:
                 if np.size(result["spec"]) == 0:
                     self.spec[self.mask, :] = np.nan
                     return
-                if np.max(result["spec"]) > 0:
-                    mask[np.where(np.sum(result["spec"], axis=1) == 0)] = 0
+                # (moonlight and twilight can be zero in the range of the model)
+                if key not in ("moon", "twilight") and np.max(result["spec"]) > 0:
+                    mask[self.good_pix[np.where(np.sum(result["spec"], axis=1) == 0)]] = 0
                 self.spec[self.good_pix] += result["spec"]
                 if not hasattr(self, "wave"):
                     self.wave = result["wave"]
-- 
2.43.0


From 4e7d6a281079ff20c4937b83c9904aba94d741cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:28 +0000
Subject: [PATCH 103/159] fix: moonlight of points with the moon below the
 range of the model

---
 rubin_sim/skybrightness/interp_components.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rubin_sim/skybrightness/interp_components.py b/rubin_sim/skybrightness/interp_components.py
index 887e9bc..29285e7 100644
--- a/rubin_sim/skybrightness/interp_components.py
+++ b/rubin_sim/skybrightness/interp_components.py
@@ -742,6 +742,9 @@ class MoonInterp(BaseSingleInterp):
                     weight = hweight * maW * mssW
                     result += weight[:, np.newaxis] * values[mssid * nhpid * n_ma + maid * nhpid + hpid]
 
+        # No moonlight for points where the moon is below the grid.
+        result[interp_points["moonAltitude"] < np.min(self.dim_dict["moonAltitude"])] = 0.0
+
         return result
 
 
-- 
2.43.0


From d7b9184f5730ed80c1fd2efdc897aef6a9d956b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:28 +0000
Subject: [PATCH 104/159] fix: twilight with the sun up for some points only

---
 rubin_sim/skybrightness/interp_components.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/rubin_sim/skybrightness/interp_components.py b/rubin_sim/skybrightness/interp_components.py
index 29285e7..c8afcb6 100644
--- a/rubin_sim/skybrightness/interp_components.py
+++ b/rubin_sim/skybrightness/interp_components.py
@@ -609,12 +609,10 @@ class TwilightInterp:
 
         for i, filterName in enumerate(filter_names):
             out_of_range = np.where(interp_points["sunAlt"] > np.max(limits))[0]
-            if np.size(out_of_range) > 0:
-                result[:, i] = np.nan
-            else:
-                result[good, i] = twilight_func(
-                    interp_points[good], *self.lsst_equations[self.filter_name_dict[filterName], :].tolist()
-                )
+            result[out_of_range, i] = np.nan
+            result[good, i] = twilight_func(
+                interp_points[good], *self.lsst_equations[self.filter_name_dict[filterName], :].tolist()
+            )
 
         return {"spec": result, "wave": self.lsst_eff_wave}
 
@@ -658,12 +656,9 @@ class TwilightInterp:
         # we have fits for
         fluxes = []
         for filter_name in self.filter_names:
-            out_of_range = np.where(interp_points["sunAlt"] > np.max(limits))[0]
-            if np.size(out_of_range) > 0:
-                fluxes.append(np.nan)
-            else:
-                fluxes.append(twilight_func(interp_points[good], *self.fit_results[filter_name]))
+            fluxes.append(twilight_func(interp_points[good], *self.fit_results[filter_name]))
         fluxes = np.array(fluxes)
+        result[np.where(interp_points["sunAlt"] > np.max(limits))[0]] = np.nan
 
         # ratio of model flux to raw solar flux:
         yvals = fluxes.T / (10.0 ** (-0.4 * (self.solar_mag - np.log10(3631.0))))
-- 
2.43.0


From feb868037f01dbfafcf2d2a3d1fe6c7724a9991b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:49 +0000
Subject: [PATCH 105/159] fix: importing rubin_sim.selfcal on its own

---
 rubin_sim/selfcal/offsets.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/selfcal/offsets.py b/rubin_sim/selfcal/offsets.py
index 3ebc040..280266c 100644
--- a/rubin_sim/selfcal/offsets.py
+++ b/rubin_sim/selfcal/offsets.py
@@ -2,8 +2,6 @@ __all__ = ["NoOffset", "OffsetSNR", "BaseOffset"]
 
 import numpy as np
 
-from ..maf.utils.astrometry_utils import m52snr
-
 # from lsst.sims.selfcal.clouds.Arma import ArmaSf, Clouds
 
 
@@ -97,6 +95,9 @@ class OffsetSNR(BaseOffset):
 
     def calc_mag_errors(self, magnitudes, m5, err_only=False):
         """ """
+        # Imported here, as maf itself imports rubin_sim.selfcal
+        from ..maf.utils.astrometry_utils import m52snr
+
         snr = m52snr(magnitudes, m5)
         # via good old https://www.eso.org/~ohainaut/ccd/sn.html
         magnitude_errors = 2.5 * np.log10(1.0 + 1.0 / snr)
-- 
2.43.0


From feffb0122474f7a8e78b43313de36fb8f2caa605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:49 +0000
Subject: [PATCH 106/159] fix: patches are laid out over the requested field of
 view

---
 rubin_sim/selfcal/generate_catalog.py | 2 +-
 rubin_sim/selfcal/star_tools.py       | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/selfcal/generate_catalog.py b/rubin_sim/selfcal/generate_catalog.py
index 31cb710..574d40c 100644
--- a/rubin_sim/selfcal/generate_catalog.py
+++ b/rubin_sim/selfcal/generate_catalog.py
@@ -151,7 +151,7 @@ def generate_catalog(
         stars_in = stars_project(stars_in, visit)
 
         # Assign patchIDs
-        stars_in = assign_patches(stars_in, visit, n_patches=n_patches)
+        stars_in = assign_patches(stars_in, visit, n_patches=n_patches, radius_fov=radius_fov)
 
         # Apply the offsets that have been configured
         for offset in offsets:
diff --git a/rubin_sim/selfcal/star_tools.py b/rubin_sim/selfcal/star_tools.py
index 4b650a5..d0654a0 100644
--- a/rubin_sim/selfcal/star_tools.py
+++ b/rubin_sim/selfcal/star_tools.py
@@ -36,6 +36,9 @@ def assign_patches(stars, visit, n_patches=16, radius_fov=1.8):
     # This should move all coords to  0 < x < nsides-1
     px = np.floor((stars["x"] + maxy) / (2.0 * maxy) * nsides)
     py = np.floor((stars["y"] + maxy) / (2.0 * maxy) * nsides)
+    # Stars on the very edge of the field belong to the last patch.
+    px = np.clip(px, 0, nsides - 1)
+    py = np.clip(py, 0, nsides - 1)
 
     stars["sub_patch"] = px + py * nsides
     stars["patch_id"] = stars["sub_patch"] + visit["observationId"] * n_patches
-- 
2.43.0


From c347101b54fad2fd0f023eae883cffe4eeb3fc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:49 +0000
Subject: [PATCH 107/159] fix: NoOffset can be used to generate catalogs

---
 rubin_sim/selfcal/offsets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/selfcal/offsets.py b/rubin_sim/selfcal/offsets.py
index 280266c..ee18222 100644
--- a/rubin_sim/selfcal/offsets.py
+++ b/rubin_sim/selfcal/offsets.py
@@ -22,7 +22,7 @@ class NoOffset(BaseOffset):
         self.newkey = "dmag_zero"
 
     def __call__(self, stars, visits, **kwargs):
-        dmag = np.zeros(stars.size, dtype=list(zip([self.newkey], [float])))
+        dmag = np.zeros(np.size(stars), dtype=float)
         return dmag
 
 
-- 
2.43.0


From b6ae28cdbc3f55c1abb65a8a2ec8d63093c22eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:49 +0000
Subject: [PATCH 108/159] fix: all configured offsets are added

---
 rubin_sim/selfcal/generate_catalog.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/selfcal/generate_catalog.py b/rubin_sim/selfcal/generate_catalog.py
index 574d40c..8a5786b 100644
--- a/rubin_sim/selfcal/generate_catalog.py
+++ b/rubin_sim/selfcal/generate_catalog.py
@@ -155,7 +155,8 @@ def generate_catalog(
 
         # Apply the offsets that have been configured
         for offset in offsets:
-            dmags[offset.newkey] = offset(stars_in, visit, dmags=dmags)
+            dmag = offset(stars_in, visit, dmags=dmags)
+            dmags[offset.newkey] = dmags.get(offset.newkey, 0.0) + dmag
 
         # Total up all the dmag's to make the observed magnitude
         keys = list(dmags.keys())
-- 
2.43.0


From bbf23840f7e79197f5a55f235a849cae063a7a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:49 +0000
Subject: [PATCH 109/159] fix: LsqrSolver does not reorder the input and
 handles large ids

---
 rubin_sim/selfcal/solver.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/rubin_sim/selfcal/solver.py b/rubin_sim/selfcal/solver.py
index 5d770c9..5195a43 100644
--- a/rubin_sim/selfcal/solver.py
+++ b/rubin_sim/selfcal/solver.py
@@ -55,12 +55,11 @@ class LsqrSolver:
         n_end = 0.0
         while n_start != n_end:
             n_start = self.observations.size
-            self.observations.sort(order="id")
+            self.observations = np.sort(self.observations, order="id")
             # Remove observations if the star was only observed once
             good = np.where(
-                (self.observations["id"] - np.roll(self.observations["id"], 1))
-                * (self.observations["id"] - np.roll(self.observations["id"], -1))
-                == 0
+                (self.observations["id"] == np.roll(self.observations["id"], 1))
+                | (self.observations["id"] == np.roll(self.observations["id"], -1))
             )
             self.observations = self.observations[good]
 
@@ -68,9 +67,8 @@ class LsqrSolver:
             self.observations.sort(order="patch_id")
 
             good = np.where(
-                (self.observations["patch_id"] - np.roll(self.observations["patch_id"], 1))
-                * (self.observations["patch_id"] - np.roll(self.observations["patch_id"], -1))
-                == 0
+                (self.observations["patch_id"] == np.roll(self.observations["patch_id"], 1))
+                | (self.observations["patch_id"] == np.roll(self.observations["patch_id"], -1))
             )
             self.observations = self.observations[good]
             n_end = self.observations.size
-- 
2.43.0


From 96d35c4b198ebc99d4844991f6c9d584718578bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:50 +0000
Subject: [PATCH 110/159] fix: check_pointings with one satellite in sight

---
 rubin_sim/satellite_constellations/sat_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/satellite_constellations/sat_utils.py b/rubin_sim/satellite_constellations/sat_utils.py
index 84df331..df5879a 100644
--- a/rubin_sim/satellite_constellations/sat_utils.py
+++ b/rubin_sim/satellite_constellations/sat_utils.py
@@ -424,7 +424,7 @@ class Constellation:
             pointing_decs_rad[above_illum_indx],
         )
 
-        close = np.where(distances < test_radius_rad)[0]
+        close = np.where(np.atleast_1d(distances) < test_radius_rad)[0]
 
         # Numpy broadcasting is such a dark art
         sat_indx = np.arange(len(self.sat_list), dtype=int)[np.newaxis]
-- 
2.43.0


From 0fa74dee311ffd225d630741b716c34309f7fd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:50 +0000
Subject: [PATCH 111/159] fix: check_pointings with visits not longer than the
 time step

---
 rubin_sim/satellite_constellations/sat_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/satellite_constellations/sat_utils.py b/rubin_sim/satellite_constellations/sat_utils.py
index df5879a..ee89121 100644
--- a/rubin_sim/satellite_constellations/sat_utils.py
+++ b/rubin_sim/satellite_constellations/sat_utils.py
@@ -443,7 +443,7 @@ class Constellation:
             visit_broad,
             sat_indx[above_illum_indx][close],
         ):
-            mjd = np.linspace(mjd, mjd + vt, num=np.round(vt / dt).astype(int))
+            mjd = np.linspace(mjd, mjd + vt, num=max(2, np.round(vt / dt).astype(int)))
             jd = mjd + MJDOFFSET
             t = self.ts.ut1_jd(jd)
             sat = self.sat_list[sat_in]
-- 
2.43.0


From 03267ba81111c14c3989dc50e0f15922556ec70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:50 +0000
Subject: [PATCH 112/159] fix: satellite ModelObservatory can be created and
 uses the requested nside

---
 rubin_sim/satellite_constellations/model_observatory.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/satellite_constellations/model_observatory.py b/rubin_sim/satellite_constellations/model_observatory.py
index 43186f9..59615c6 100644
--- a/rubin_sim/satellite_constellations/model_observatory.py
+++ b/rubin_sim/satellite_constellations/model_observatory.py
@@ -3,7 +3,7 @@ __all__ = ("ModelObservatory",)
 import numpy as np
 from rubin_scheduler.scheduler.model_observatory import ModelObservatory as oMO
 from rubin_scheduler.site_models import Almanac
-from rubin_scheduler.utils import SURVEY_START_MJD, _healbin
+from rubin_scheduler.utils import DEFAULT_NSIDE, SURVEY_START_MJD, _healbin
 
 # Take the model observatory from the scheduler and
 # subclass to expand to include satellite constellations
@@ -76,10 +76,11 @@ class ModelObservatory(oMO):
         self.night = -1
 
         # Run the rest of the regular __init__ steps
+        if nside is None:
+            nside = DEFAULT_NSIDE
         super().__init__(
-            nside=None,
+            nside=nside,
             mjd_start=self.mjd_start,
-            seed=seed,
             alt_min=alt_min,
             lax_dome=lax_dome,
             cloud_limit=cloud_limit,
-- 
2.43.0


From 8e864b9471a983420e820e0038c71b51cfb5175c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:07 +0000
Subject: [PATCH 113/159] fix: streaks of satellites that are partly behind the
 tangent plane

---
 rubin_sim/satellite_constellations/sat_utils.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/satellite_constellations/sat_utils.py b/rubin_sim/satellite_constellations/sat_utils.py
index ee89121..79fb3b0 100644
--- a/rubin_sim/satellite_constellations/sat_utils.py
+++ b/rubin_sim/satellite_constellations/sat_utils.py
@@ -10,7 +10,13 @@ __all__ = (
 import numpy as np
 from astropy import constants as const
 from astropy import units as u
-from rubin_scheduler.utils import SURVEY_START_MJD, Site, gnomonic_project_toxy, point_to_line_distance
+from rubin_scheduler.utils import (
+    SURVEY_START_MJD,
+    Site,
+    _angular_separation,
+    gnomonic_project_toxy,
+    point_to_line_distance,
+)
 from shapely.geometry import LineString, Point
 from skyfield.api import EarthSatellite, load, wgs84
 
@@ -479,6 +485,11 @@ def _streak_length(sat_ras, sat_decs, pointing_ra, pointing_dec, radius):
     length : `float`
         The length of the streak in radians
     """
+    # There is no projection for points 90 degrees or more away
+    in_front = _angular_separation(sat_ras, sat_decs, pointing_ra, pointing_dec) < np.pi / 2
+    if np.sum(in_front) < 2:
+        return 0.0
+    sat_ras, sat_decs = sat_ras[in_front], sat_decs[in_front]
     # Hopefully this broadcasts properly
     x, y = gnomonic_project_toxy(sat_ras, sat_decs, pointing_ra, pointing_dec)
     ls = LineString(zip(x, y))
-- 
2.43.0


From d5940901b43f895f68b0398d1474a78af41d18aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:42 +0000
Subject: [PATCH 114/159] fix: searching simulations without tags

---
 rubin_sim/sim_archive/vseqmetadata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/sim_archive/vseqmetadata.py b/rubin_sim/sim_archive/vseqmetadata.py
index 6e4fcb0..5ad62ed 100644
--- a/rubin_sim/sim_archive/vseqmetadata.py
+++ b/rubin_sim/sim_archive/vseqmetadata.py
@@ -1474,7 +1474,7 @@ class VisitSequenceArchiveMetadata:
             FROM {}.simulations_extra AS s
             WHERE %s BETWEEN first_day_obs AND last_day_obs
                 AND %s BETWEEN first_day_obs AND last_day_obs
-                AND telescope = %
+                AND telescope = %s
                 AND creation_time >= NOW() - INTERVAL '%s days'
             """
             query_params = (first_day_obs, last_day_obs, telescope, max_simulation_age)
@@ -1561,7 +1561,7 @@ class VisitSequenceArchiveMetadata:
             FROM {}.simulations_extra AS s
             LEFT JOIN aggstats AS ns ON s.visitseq_uuid=ns.visitseq_uuid
             WHERE %s BETWEEN first_day_obs AND last_day_obs
-                AND telescope = %
+                AND telescope = %s
                 AND creation_time >= NOW() - INTERVAL '%s days'
             """
             query_params = (day_obs, day_obs, telescope, max_simulation_age)
-- 
2.43.0


From 7f69173a2c90ec4aa6f3a01e26977492b67464f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:42 +0000
Subject: [PATCH 115/159] fix: record_conda_env with only one of hash and
 content

---
 rubin_sim/sim_archive/vseqmetadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/sim_archive/vseqmetadata.py b/rubin_sim/sim_archive/vseqmetadata.py
index 5ad62ed..136b111 100644
--- a/rubin_sim/sim_archive/vseqmetadata.py
+++ b/rubin_sim/sim_archive/vseqmetadata.py
@@ -1366,7 +1366,7 @@ class VisitSequenceArchiveMetadata:
             ``None`` (the default) uses the current
             conda environment.
         """
-        if conda_env_hash is None != conda_env_json is None:
+        if (conda_env_hash is None) != (conda_env_json is None):
             raise ValueError("conda_env_hash and conda_env_json must both be set, or neither.")
 
         if conda_env_hash is None:
-- 
2.43.0


From e9b0b9b3925b21030487db61768f433ce05425bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:42 +0000
Subject: [PATCH 116/159] fix: all tags of one call are stored or none

---
 rubin_sim/sim_archive/vseqmetadata.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/rubin_sim/sim_archive/vseqmetadata.py b/rubin_sim/sim_archive/vseqmetadata.py
index 136b111..382df5f 100644
--- a/rubin_sim/sim_archive/vseqmetadata.py
+++ b/rubin_sim/sim_archive/vseqmetadata.py
@@ -976,14 +976,23 @@ class VisitSequenceArchiveMetadata:
         *tags : `str`
             One or more tags to add to the visit sequence.
         """
-        query = sql.SQL("INSERT INTO {}.tags (visitseq_uuid, tag) VALUES ({}, {})").format(
-            sql.Identifier(self.metadata_db_schema), sql.Placeholder("visitseq_uuid"), sql.Placeholder("tag")
-        )
+        # Drop duplicates, preserving order
+        new_tags = [tag for tag in dict.fromkeys(tags) if not self.is_tagged(visitseq_uuid, tag)]
+        if len(new_tags) == 0:
+            return
+
+        # Insert all tags in one query, so that either all or none are added.
         data: Dict[str, Any] = {"visitseq_uuid": visitseq_uuid}
-        for tag in tags:
-            if not self.is_tagged(visitseq_uuid, tag):
-                data["tag"] = tag
-                self.query(query, data, commit=True, return_result=False)
+        values = []
+        for i, tag in enumerate(new_tags):
+            data[f"tag{i}"] = tag
+            values.append(
+                sql.SQL("({}, {})").format(sql.Placeholder("visitseq_uuid"), sql.Placeholder(f"tag{i}"))
+            )
+        query = sql.SQL("INSERT INTO {}.tags (visitseq_uuid, tag) VALUES {}").format(
+            sql.Identifier(self.metadata_db_schema), sql.SQL(", ").join(values)
+        )
+        self.query(query, data, commit=True, return_result=False)
 
     def untag(self, visitseq_uuid: UUID, tag: str) -> None:
         """Untag a visit sequence with a given tag.
-- 
2.43.0


From afd52735c27c6d2282eb9fda5d8c8f65734d9bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:42 +0000
Subject: [PATCH 117/159] fix: connections of sqlalchemy do not use up the
 connection pool

---
 rubin_sim/sim_archive/vseqmetadata.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/rubin_sim/sim_archive/vseqmetadata.py b/rubin_sim/sim_archive/vseqmetadata.py
index 382df5f..4e7584c 100644
--- a/rubin_sim/sim_archive/vseqmetadata.py
+++ b/rubin_sim/sim_archive/vseqmetadata.py
@@ -213,15 +213,14 @@ class VisitSequenceArchiveMetadata:
         # work well directly with the psycopg2
         # connection, but can work with sqlalchemy.
         # Make and alchemy engine that acts as
-        # a middle-man between pandas and psycopg2,
-        # using the same connection pool.
-        # There is a potential issue in that SA
-        # does not return connections to the
-        # psycopg pool when it is done. But, it
-        # has its own pool, and so in expected use
-        # it will just get one and keep reusing it.
+        # a middle-man between pandas and psycopg2.
+        # SA has its own pool, and would not return
+        # connections to the psycopg pool when it
+        # is done, so let it make its own.
         self.sa_engine = sqlalchemy.create_engine(
-            "postgresql+psycopg2://", creator=self.pg_pool.getconn, pool_pre_ping=True
+            "postgresql+psycopg2://",
+            creator=lambda: psycopg2.connect(**metadata_db_kwargs),
+            pool_pre_ping=True,
         )
 
         self.metadata_db_schema: str = metadata_db_schema
@@ -1305,8 +1304,7 @@ class VisitSequenceArchiveMetadata:
 
         # pandas to_sql fails with the native psycopg2, only
         # works with sqlalchemy
-        engine = sqlalchemy.create_engine("postgresql+psycopg2://", creator=self.pg_pool.getconn)
-        with engine.connect() as conn:
+        with self.sa_engine.connect() as conn:
             num_rows_added = stats_df.to_sql(
                 "nightly_stats", conn, schema=self.metadata_db_schema, if_exists="append", index=False
             )
-- 
2.43.0


From e951b5380c506629ca3ef0cd5093c0bf51b95848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:42 +0000
Subject: [PATCH 118/159] fix: recording a simulation, completed or mixed
 sequence is atomic

---
 rubin_sim/sim_archive/vseqmetadata.py | 142 ++++++--------------------
 1 file changed, 30 insertions(+), 112 deletions(-)

diff --git a/rubin_sim/sim_archive/vseqmetadata.py b/rubin_sim/sim_archive/vseqmetadata.py
index 4e7584c..c5dac08 100644
--- a/rubin_sim/sim_archive/vseqmetadata.py
+++ b/rubin_sim/sim_archive/vseqmetadata.py
@@ -391,6 +391,7 @@ class VisitSequenceArchiveMetadata:
         first_day_obs: date | int | str | None = None,
         last_day_obs: date | int | str | None = None,
         creation_time: Time | None = None,
+        extra_columns: Mapping[str, Any] | None = None,
     ) -> UUID:
         """Record metadata for a new visit sequence.
 
@@ -419,6 +420,8 @@ class VisitSequenceArchiveMetadata:
             to SITCOMTN-032 (UTC-12hrs).
         creation_time : `Time`, optional
             The time the sequence was created, defaults no now.
+        extra_columns : `Mapping`, optional
+            Values of additional columns specific to ``table``.
 
         Returns
         -------
@@ -480,6 +483,12 @@ class VisitSequenceArchiveMetadata:
             data_placeholders.append(sql.Placeholder("creation_time"))
             data["creation_time"] = creation_datetime
 
+        if extra_columns is not None:
+            for column, value in extra_columns.items():
+                columns.append(sql.Identifier(column))
+                data_placeholders.append(sql.Placeholder(column))
+                data[column] = value
+
         query = sql.SQL("INSERT INTO {}.{} ({}) VALUES ({}) RETURNING visitseq_uuid").format(
             sql.Identifier(self.metadata_db_schema),
             sql.Identifier(table),
@@ -643,39 +652,17 @@ class VisitSequenceArchiveMetadata:
         visitseq_uuid : UUID
             The UUID of the new visit sequence.
         """
-        # I would have preferred to use kwargs here, but was not
-        # able to get type checking happy with it.
-        visitseq_uuid = self.record_visitseq_metadata(
-            visits,
-            label,
-            telescope=telescope,
-            table="simulations",
-            url=url,
-            first_day_obs=first_day_obs,
-            last_day_obs=last_day_obs,
-            creation_time=creation_time,
-        )
-
-        def make_set_clause(column: str) -> sql.Composed:
-            set_clause = sql.SQL("{} = {}").format(sql.Identifier(column), sql.Placeholder(column))
-            return set_clause
-
-        set_clauses = []
         data: Dict[str, Any] = {}
         if scheduler_version is not None:
-            set_clauses.append(make_set_clause("scheduler_version"))
             data["scheduler_version"] = scheduler_version
 
         if config_url is not None:
-            set_clauses.append(make_set_clause("config_url"))
             data["config_url"] = config_url
 
         if conda_env_sha256 is not None:
-            set_clauses.append(make_set_clause("conda_env_sha256"))
             data["conda_env_sha256"] = conda_env_sha256
 
         if parent_visitseq_uuid is not None:
-            set_clauses.append(make_set_clause("parent_visitseq_uuid"))
             data["parent_visitseq_uuid"] = str(parent_visitseq_uuid)
 
         if sim_runner_kwargs is not None:
@@ -699,37 +686,24 @@ class VisitSequenceArchiveMetadata:
                     else sim_runner_kwargs[key]
                 )
 
-            set_clauses.append(make_set_clause("sim_runner_kwargs"))
             data["sim_runner_kwargs"] = psycopg2.extras.Json(sim_runner_munged_kwargs)
 
         if parent_last_day_obs is not None:
-            set_clauses.append(make_set_clause("parent_last_day_obs"))
-            data["parent_last_day_obs"] = parent_last_day_obs
-
-        num_columns_to_update = len(set_clauses)
+            data["parent_last_day_obs"] = dayobs_to_date(parent_last_day_obs)
 
-        if num_columns_to_update > 0:
-            query = sql.SQL("UPDATE {}.simulations SET {} WHERE visitseq_uuid={} RETURNING *;").format(
-                sql.Identifier(self.metadata_db_schema),
-                sql.SQL(", ").join(set_clauses),
-                sql.Placeholder("visitseq_uuid"),
-            )
-            data["visitseq_uuid"] = visitseq_uuid
-
-            conn = None
-            try:
-                conn = self.pg_pool.getconn()
-                cursor = conn.cursor()
-                cursor.execute(query, data)
-                result = cursor.fetchall()
-
-                # Be extra cautious, and check that everything looks
-                # reasonable before commiting the update.
-                assert len(result) == 1
-                cursor.execute("COMMIT;")
-            finally:
-                if conn:
-                    self.pg_pool.putconn(conn)
+        # I would have preferred to use kwargs here, but was not
+        # able to get type checking happy with it.
+        visitseq_uuid = self.record_visitseq_metadata(
+            visits,
+            label,
+            telescope=telescope,
+            table="simulations",
+            url=url,
+            first_day_obs=first_day_obs,
+            last_day_obs=last_day_obs,
+            creation_time=creation_time,
+            extra_columns=data,
+        )
 
         return visitseq_uuid
 
@@ -814,33 +788,9 @@ class VisitSequenceArchiveMetadata:
             first_day_obs=first_day_obs,
             last_day_obs=last_day_obs,
             creation_time=creation_time,
+            extra_columns=None if query is None else {"query": query},
         )
 
-        if query is not None:
-            composed_query = sql.SQL(
-                "UPDATE {}.completed SET query={} WHERE visitseq_uuid={} RETURNING *"
-            ).format(
-                sql.Identifier(self.metadata_db_schema),
-                sql.Placeholder("query"),
-                sql.Placeholder("visitseq_uuid"),
-            )
-            data = {"query": query, "visitseq_uuid": visitseq_uuid}
-
-            conn = None
-            try:
-                conn = self.pg_pool.getconn()
-                cursor = conn.cursor()
-                cursor.execute(composed_query, data)
-                result = cursor.fetchall()
-
-                # Be extra cautious, and check that everything looks
-                # reasonable before commiting the update.
-                assert len(result) == 1
-                cursor.execute("COMMIT;")
-            finally:
-                if conn:
-                    self.pg_pool.putconn(conn)
-
         return visitseq_uuid
 
     def record_mixed_metadata(
@@ -900,46 +850,14 @@ class VisitSequenceArchiveMetadata:
             first_day_obs=first_day_obs,
             last_day_obs=last_day_obs,
             creation_time=creation_time,
+            extra_columns={
+                "last_early_day_obs": dayobs_to_date(last_early_day_obs),
+                "first_late_day_obs": dayobs_to_date(first_late_day_obs),
+                "early_parent_uuid": early_parent_uuid,
+                "late_parent_uuid": late_parent_uuid,
+            },
         )
 
-        update_query = sql.SQL("""UPDATE {}.mixedvisitseq
-                   SET last_early_day_obs={},
-                       first_late_day_obs={},
-                       early_parent_uuid={},
-                       late_parent_uuid={}\
-                   WHERE visitseq_uuid={} RETURNING *
-                """).format(
-            sql.Identifier(self.metadata_db_schema),
-            sql.Placeholder("last_early_day_obs"),
-            sql.Placeholder("first_late_day_obs"),
-            sql.Placeholder("early_parent_uuid"),
-            sql.Placeholder("late_parent_uuid"),
-            sql.Placeholder("visitseq_uuid"),
-        )
-
-        data = {
-            "last_early_day_obs": dayobs_to_date(last_early_day_obs),
-            "first_late_day_obs": dayobs_to_date(first_late_day_obs),
-            "early_parent_uuid": early_parent_uuid,
-            "late_parent_uuid": late_parent_uuid,
-            "visitseq_uuid": visitseq_uuid,
-        }
-
-        conn = None
-        try:
-            conn = self.pg_pool.getconn()
-            cursor = conn.cursor()
-            cursor.execute(update_query, data)
-            result = cursor.fetchall()
-
-            # Be extra cautious, and check that everything looks
-            # reasonable before commiting the update.
-            assert len(result) == 1
-            cursor.execute("COMMIT;")
-        finally:
-            if conn:
-                self.pg_pool.putconn(conn)
-
         return visitseq_uuid
 
     def is_tagged(self, visitseq_uuid: UUID, tag: str) -> bool:
-- 
2.43.0


From 9289f240402c0960ce97fce4c84cbaa987eb974f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:17 +0000
Subject: [PATCH 119/159] fix: visits hash depends on the content of text
 columns

---
 rubin_sim/sim_archive/vseqmetadata.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/sim_archive/vseqmetadata.py b/rubin_sim/sim_archive/vseqmetadata.py
index c5dac08..92c5389 100644
--- a/rubin_sim/sim_archive/vseqmetadata.py
+++ b/rubin_sim/sim_archive/vseqmetadata.py
@@ -47,7 +47,18 @@ psycopg2.extras.register_uuid()
 def compute_visits_sha256(visits: pd.DataFrame) -> bytes:
     recs = visits.to_records()
     visitseq_hash = hashlib.sha256(str(recs.dtype).encode())
-    visitseq_hash.update(np.ascontiguousarray(recs).data.tobytes())
+    if recs.dtype.hasobject:
+        # The bytes of a column of python objects are their addresses, so
+        # use the values themselves.
+        for name in recs.dtype.names:
+            if recs[name].dtype.hasobject:
+                for value in recs[name].tolist():
+                    encoded_value = repr(value).encode()
+                    visitseq_hash.update(f"{len(encoded_value)}:".encode() + encoded_value)
+            else:
+                visitseq_hash.update(recs[name].tobytes())
+    else:
+        visitseq_hash.update(recs.tobytes())
     visitseq_sha256 = bytes.fromhex(visitseq_hash.hexdigest())
     return visitseq_sha256
 
-- 
2.43.0


From f8aab37702860d6e2eb54552518d4934f2dd4cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:17 +0000
Subject: [PATCH 120/159] fix: opsim tables with any name can be converted to
 hdf5

---
 rubin_sim/sim_archive/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/sim_archive/util.py b/rubin_sim/sim_archive/util.py
index 9f58ef4..8041ab2 100644
--- a/rubin_sim/sim_archive/util.py
+++ b/rubin_sim/sim_archive/util.py
@@ -82,7 +82,8 @@ def opsimdb_to_hdf5(opsimdb_path: str | Path, hdf5_path: str | Path | None = Non
         # Write each table to the HDF5 file
         hdf5_mode = "w"
         for table in tables:
-            df = pd.read_sql_query(f"SELECT * FROM {table}", conn)
+            quoted_table = '"' + table.replace('"', '""') + '"'
+            df = pd.read_sql_query(f"SELECT * FROM {quoted_table}", conn)
             df.to_hdf(str(hdf5_path), key=table, mode=hdf5_mode)
             hdf5_mode = "a"
 
-- 
2.43.0


From ae7b40d1317689a86e2effa1229b8d74eda31a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:17 +0000
Subject: [PATCH 121/159] fix: adding a file to the archive does not overwrite
 another one

---
 rubin_sim/sim_archive/vseqarchive.py  | 30 +++++++++++++++++++++++++++
 rubin_sim/sim_archive/vseqmetadata.py | 19 +++++++++++++++++
 2 files changed, 49 insertions(+)

diff --git a/rubin_sim/sim_archive/vseqarchive.py b/rubin_sim/sim_archive/vseqarchive.py
index 5b4c33e..bb61a22 100644
--- a/rubin_sim/sim_archive/vseqarchive.py
+++ b/rubin_sim/sim_archive/vseqarchive.py
@@ -155,6 +155,34 @@ def _write_file_to_archive(
     return destination_rp, content_sha256
 
 
+def _check_archive_destination(
+    vsarch: VisitSequenceArchiveMetadata,
+    uuid: UUID,
+    origin: str | Path,
+    file_type: str,
+    visitseq_base_rp: ResourcePath,
+    update: bool,
+) -> None:
+    # Raise ValueError if archiving the file would replace content
+    # that is already in the archive, and should be kept.
+    registered_urls = vsarch.get_file_urls(uuid)
+    visits_url = vsarch.get_visitseq_url(uuid)
+    if visits_url is not None:
+        registered_urls["visits"] = visits_url
+
+    if file_type != "visits" and file_type in registered_urls and not update:
+        raise ValueError(f"A file of type {file_type} is already registered for {uuid}")
+
+    destination_rp = visitseq_base_rp.join(Path(origin).name)
+    keep_types = [
+        registered_type
+        for registered_type, url in registered_urls.items()
+        if url == destination_rp.geturl() and (registered_type != file_type or not update)
+    ]
+    if keep_types and destination_rp.exists() and destination_rp.read() != Path(origin).read_bytes():
+        raise ValueError(f"{destination_rp} already holds a different file, of type {keep_types[0]}")
+
+
 def add_file(
     vsarch: VisitSequenceArchiveMetadata,
     uuid: UUID,
@@ -211,6 +239,8 @@ def add_file(
             location = add_file(vsarch, uuid, new_origin, "visits", archive_base, update)
         return location
 
+    _check_archive_destination(vsarch, uuid, origin, file_type, visitseq_base_rp, update)
+
     location, file_sha256 = _write_file_to_archive(origin, visitseq_base_rp)
     if file_type == "visits":
         vsarch.set_visitseq_url(uuid, location.geturl())
diff --git a/rubin_sim/sim_archive/vseqmetadata.py b/rubin_sim/sim_archive/vseqmetadata.py
index 92c5389..1b90657 100644
--- a/rubin_sim/sim_archive/vseqmetadata.py
+++ b/rubin_sim/sim_archive/vseqmetadata.py
@@ -1159,6 +1159,25 @@ class VisitSequenceArchiveMetadata:
         url = result[0][0]
         return url
 
+    def get_file_urls(self, visitseq_uuid: UUID) -> dict[str, str]:
+        """Return the URLs for all registered files of a visit sequence.
+
+        Parameters
+        ----------
+        visitseq_uuid : `UUID`
+            The UUID of the visit sequence.
+
+        Returns
+        -------
+        file_urls : `dict` [`str`, `str`]
+            The URLs of the files registered, by file type.
+        """
+        query = sql.SQL("SELECT file_type, file_url FROM {}.files WHERE visitseq_uuid={}").format(
+            sql.Identifier(self.metadata_db_schema),
+            sql.Placeholder("visitseq_uuid"),
+        )
+        return dict(self.query(query, {"visitseq_uuid": visitseq_uuid}))
+
     def get_file_sha256(self, visitseq_uuid: UUID, file_type: str) -> bytes:
         """Retrieve the SHA‑256 digest of a registered file.
 
-- 
2.43.0


From f0ad03626912052384c1988c88010be270ca2f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:28 +0000
Subject: [PATCH 122/159] fix: make_sim_data_dir keeps its arguments and every
 file

---
 rubin_sim/sim_archive/sim_archive.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/sim_archive/sim_archive.py b/rubin_sim/sim_archive/sim_archive.py
index 9b8fc21..c81fdae 100644
--- a/rubin_sim/sim_archive/sim_archive.py
+++ b/rubin_sim/sim_archive/sim_archive.py
@@ -104,6 +104,11 @@ def make_sim_data_dir(
         if not isinstance(data_path, Path):
             data_path = Path(data_path)
 
+    file_names = [Path(fname).name for fname in in_files.values()]
+    reserved_names = {"opsim.db", "rewards.h5", "obs_stats.txt", "sim_metadata.yaml"}
+    if len(set(file_names)) < len(file_names) or reserved_names.intersection(file_names):
+        raise ValueError(f"Files to be archived must have different names, not in {sorted(reserved_names)}.")
+
     files = {}
 
     # Save the observations
@@ -112,7 +117,7 @@ def make_sim_data_dir(
     SchemaConverter().obs2opsim(observations, filename=opsim_output_fname)
 
     # Save the rewards
-    if reward_df is not None and obs_rewards is not None:
+    if reward_df is not None or obs_rewards is not None:
         files["rewards"] = {"name": "rewards.h5"}
         rewards_fname = data_path.joinpath(files["rewards"]["name"])
         if reward_df is not None:
@@ -149,8 +154,7 @@ def make_sim_data_dir(
         assert isinstance(evening_local_iso, str)
         return evening_local_iso
 
-    if opsim_metadata is None:
-        opsim_metadata = {}
+    opsim_metadata = {} if opsim_metadata is None else dict(opsim_metadata)
 
     opsim_metadata["scheduler_version"] = rubin_scheduler.__version__
     opsim_metadata["host"] = socket.getfqdn()
-- 
2.43.0


From a1ac77a1c64eec5600763396158b365a4d9c1325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:28 +0000
Subject: [PATCH 123/159] fix: the resource returned by drive_sim exists

---
 rubin_sim/sim_archive/sim_archive.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/sim_archive/sim_archive.py b/rubin_sim/sim_archive/sim_archive.py
index c81fdae..01607b4 100644
--- a/rubin_sim/sim_archive/sim_archive.py
+++ b/rubin_sim/sim_archive/sim_archive.py
@@ -20,7 +20,7 @@ import socket
 from datetime import date, datetime, timedelta
 from numbers import Integral, Number
 from pathlib import Path
-from tempfile import TemporaryDirectory
+from tempfile import TemporaryDirectory, mkdtemp
 from typing import Any, Optional, Sequence, cast
 from zoneinfo import ZoneInfo
 
@@ -311,7 +311,8 @@ def drive_sim(
         reward_df = sim_results[3] if scheduler.keep_rewards else None
         obs_rewards = sim_results[4] if scheduler.keep_rewards else None
 
-        data_dir = make_sim_data_dir(
+        # Leave it to the caller to remove the results.
+        data_path = make_sim_data_dir(
             observations,
             reward_df=reward_df,
             obs_rewards=obs_rewards,
@@ -319,10 +320,11 @@ def drive_sim(
             sim_runner_kwargs=kwargs,
             tags=tags,
             label=label,
+            data_path=mkdtemp(),
             opsim_metadata=opsim_metadata,
         )
 
-        resource_path = ResourcePath(data_dir.name, forceDirctory=True)  # type: ignore
+        resource_path = ResourcePath(str(data_path), forceDirectory=True)
 
     results = sim_results + (resource_path,)
     return results
-- 
2.43.0


From 4fad76d7241e86676d446818f0aff5b9743e6de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:28 +0000
Subject: [PATCH 124/159] fix: fetch_sim_for_nights leaves its arguments as
 they are

---
 rubin_sim/sim_archive/prototype.py   | 7 ++-----
 rubin_sim/sim_archive/sim_archive.py | 6 ++----
 2 files changed, 4 insertions(+), 9 deletions(-)

diff --git a/rubin_sim/sim_archive/prototype.py b/rubin_sim/sim_archive/prototype.py
index e1b19d0..19eebe9 100644
--- a/rubin_sim/sim_archive/prototype.py
+++ b/rubin_sim/sim_archive/prototype.py
@@ -881,13 +881,10 @@ def fetch_sim_for_nights(
 
     assert isinstance(opsim_rp, ResourcePath)
 
-    if get_sim_data_kwargs is None:
-        get_sim_data_kwargs = {}
-    assert isinstance(get_sim_data_kwargs, dict)
+    get_sim_data_kwargs = {} if get_sim_data_kwargs is None else dict(get_sim_data_kwargs)
 
     # Limit visits returned to the nights we requested
-    if "stackers" not in get_sim_data_kwargs:
-        get_sim_data_kwargs["stackers"] = []
+    get_sim_data_kwargs["stackers"] = list(get_sim_data_kwargs.get("stackers", []))
     dayobsiso_requested = maf.DayObsISOStacker in [s.__class__ for s in get_sim_data_kwargs["stackers"]]
     if not dayobsiso_requested:
         # We want it to filter out dates that were not requested,
diff --git a/rubin_sim/sim_archive/sim_archive.py b/rubin_sim/sim_archive/sim_archive.py
index 01607b4..84487df 100644
--- a/rubin_sim/sim_archive/sim_archive.py
+++ b/rubin_sim/sim_archive/sim_archive.py
@@ -477,7 +477,7 @@ def fetch_sim_for_nights(
             stackers = get_sim_data_kwargs["stackers"]
         else:
             stackers = []
-    assert isinstance(stackers, list)
+    stackers = list(stackers)
 
     dayobsiso_requested = maf.DayObsISOStacker in [s.__class__ for s in stackers]
     if not dayobsiso_requested:
@@ -486,9 +486,7 @@ def fetch_sim_for_nights(
         stackers.append(maf.DayObsISOStacker())
 
     if opsim_rp.getExtension() in (".db", ".sqlite3"):
-        if get_sim_data_kwargs is None:
-            get_sim_data_kwargs = {}
-        assert isinstance(get_sim_data_kwargs, dict)
+        get_sim_data_kwargs = {} if get_sim_data_kwargs is None else dict(get_sim_data_kwargs)
         get_sim_data_kwargs["stackers"] = stackers
         visits_recarray = get_sim_data(opsim_rp, **get_sim_data_kwargs)
         visits = pd.DataFrame(visits_recarray)
-- 
2.43.0


From ce5fb15732141bc929b88783bf5ba0ea2b349baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:28 +0000
Subject: [PATCH 125/159] fix: finding the latest of several simulations, with
 or without tags

---
 rubin_sim/sim_archive/prototype.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/sim_archive/prototype.py b/rubin_sim/sim_archive/prototype.py
index 19eebe9..c384908 100644
--- a/rubin_sim/sim_archive/prototype.py
+++ b/rubin_sim/sim_archive/prototype.py
@@ -799,12 +799,12 @@ def find_latest_prenight_sim_for_nights(
             continue
         if "telescope" in sim and sim["telescope"].lower() != telescope.lower():
             continue
-        if not set(tags).issubset(sim["tags"]):
+        if not set(tags).issubset(sim.get("tags", [])):
             continue
         if best_sim is not None:
             if sim["exec_date"] < best_sim["exec_date"]:
                 continue
-            if sim["date_index"] < best_sim["date_index"]:
+            if sim["exec_date"] == best_sim["exec_date"] and sim["date_index"] < best_sim["date_index"]:
                 continue
         best_sim = sim
 
-- 
2.43.0


From efc03c361edcff0379623b95bbf7fe43b8e16e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:28 +0000
Subject: [PATCH 126/159] fix: compiling metadata of simulations without tags
 or arguments

---
 rubin_sim/sim_archive/prototype.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/rubin_sim/sim_archive/prototype.py b/rubin_sim/sim_archive/prototype.py
index c384908..16986bd 100644
--- a/rubin_sim/sim_archive/prototype.py
+++ b/rubin_sim/sim_archive/prototype.py
@@ -477,15 +477,15 @@ def compile_sim_metadata(
 
     sim_df = pd.DataFrame(sim_rows).set_index("sim_uri")
     file_df = pd.DataFrame(file_rows).set_index("sim_uri")
-    sim_runner_kwargs_df = pd.DataFrame(sim_runner_kwargs).set_index("sim_uri")
-    tags_df = pd.DataFrame(tags).set_index("sim_uri")
 
     with TemporaryDirectory() as local_data_dir:
         local_hdf_fname = Path(local_data_dir).joinpath("scheduler.pickle.xz")
         sim_df.to_hdf(local_hdf_fname, key="simulations", format="table")
         file_df.to_hdf(local_hdf_fname, key="files", format="table")
-        sim_runner_kwargs_df.to_hdf(local_hdf_fname, key="kwargs", format="table")
-        tags_df.to_hdf(local_hdf_fname, key="tags", format="table")
+        # There might be no tags or sim_runner arguments at all.
+        for key, rows in (("kwargs", sim_runner_kwargs), ("tags", tags)):
+            if len(rows) > 0:
+                pd.DataFrame(rows).set_index("sim_uri").to_hdf(local_hdf_fname, key=key, format="table")
 
         with open(local_hdf_fname, "rb") as local_hdf_io:
             hdf_bytes = local_hdf_io.read()
@@ -529,8 +529,9 @@ def read_sim_metadata_from_hdf(compilation_resource: str | ResourcePath) -> dict
         LOGGER.debug(f"{compilation_resource} copied to {compilation_fname}.")
         sim_df = pd.read_hdf(compilation_fname, "simulations")
         file_df = pd.read_hdf(compilation_fname, "files")
-        sim_runner_kwargs_df = pd.read_hdf(compilation_fname, "kwargs")
-        tags_df = pd.read_hdf(compilation_fname, "tags")
+        with pd.HDFStore(compilation_fname, mode="r") as compilation_store:
+            sim_runner_kwargs_df = compilation_store["kwargs"] if "kwargs" in compilation_store else None
+            tags_df = compilation_store["tags"] if "tags" in compilation_store else None
 
     def make_file_dict(g: pd.Series | pd.DataFrame) -> dict:
         if isinstance(g, pd.Series):
@@ -557,9 +558,11 @@ def read_sim_metadata_from_hdf(compilation_resource: str | ResourcePath) -> dict
 
         return sim_kwargs
 
-    sim_df["sim_runner_kwargs"] = sim_runner_kwargs_df.groupby("sim_uri").apply(make_kwargs_dict)
+    if sim_runner_kwargs_df is not None:
+        sim_df["sim_runner_kwargs"] = sim_runner_kwargs_df.groupby("sim_uri").apply(make_kwargs_dict)
 
-    sim_df["tags"] = tags_df.groupby("sim_uri").agg({"tag": list})
+    if tags_df is not None:
+        sim_df["tags"] = tags_df.groupby("sim_uri").agg({"tag": list})
 
     sim_metadata = sim_df.to_dict(orient="index")
 
-- 
2.43.0


From 93df4095e107eaf1a16e8ce16cf74f30af2a5545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:54 +0000
Subject: [PATCH 127/159] fix: importing a simulation keeps its creation time

---
 rubin_sim/sim_archive/vseqmetadata.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/sim_archive/vseqmetadata.py b/rubin_sim/sim_archive/vseqmetadata.py
index 1b90657..eb729d8 100644
--- a/rubin_sim/sim_archive/vseqmetadata.py
+++ b/rubin_sim/sim_archive/vseqmetadata.py
@@ -1558,7 +1558,11 @@ class VisitSequenceArchiveMetadata:
         record_sim_kwargs = {"label": label}
 
         # The prenight labels usually end in the creation time.
-        if " ".join(label.split()[-3:-1]) == "run at":
+        if "creation_time" in sim_archive_metadata:
+            record_sim_kwargs["creation_time"] = Time(
+                datetime.fromisoformat(str(sim_archive_metadata["creation_time"]))
+            )
+        elif " ".join(label.split()[-3:-1]) == "run at":
             maybe_date_str = label.split()[-1]
             try:
                 record_sim_kwargs["creation_time"] = Time(datetime.fromisoformat(maybe_date_str))
-- 
2.43.0


From 31236f08bfa4db081e28736e9b0b9d6b695d284c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:54 +0000
Subject: [PATCH 128/159] fix: metadata yaml of a simulation names its dates as
 the readers expect

---
 rubin_sim/sim_archive/vseqmetadata.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/sim_archive/vseqmetadata.py b/rubin_sim/sim_archive/vseqmetadata.py
index eb729d8..860fb8b 100644
--- a/rubin_sim/sim_archive/vseqmetadata.py
+++ b/rubin_sim/sim_archive/vseqmetadata.py
@@ -1673,11 +1673,11 @@ class VisitSequenceArchiveMetadata:
             metadata["creation_time"] = metadata_seq["creation_time"].isoformat()
 
         if metadata_seq.first_day_obs is not None or metadata_seq.last_day_obs is not None:
-            metadata["simulation_dates"] = {}
+            metadata["simulated_dates"] = {}
             if metadata_seq.first_day_obs is not None:
-                metadata["simulation_dates"]["first"] = metadata_seq.first_day_obs
+                metadata["simulated_dates"]["first"] = metadata_seq.first_day_obs.isoformat()
             if metadata_seq.last_day_obs is not None:
-                metadata["simulation_dates"]["last"] = metadata_seq.last_day_obs
+                metadata["simulated_dates"]["last"] = metadata_seq.last_day_obs.isoformat()
 
         if metadata_seq.files is not None:
             metadata["files"] = {}
-- 
2.43.0


From 5e59ccf44a5b0db95f8aab91b3000f8346ef76c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:47 +0000
Subject: [PATCH 129/159] fix: dayobs_to_date takes integers of numpy

---
 rubin_sim/sim_archive/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/sim_archive/util.py b/rubin_sim/sim_archive/util.py
index 8041ab2..4debc4c 100644
--- a/rubin_sim/sim_archive/util.py
+++ b/rubin_sim/sim_archive/util.py
@@ -24,7 +24,8 @@ def dayobs_to_date(dayobs: str | date | int | Time) -> date:
         The date of observation as a ``datetime.date``.
     """
     match dayobs:
-        case int():
+        case int() | np.integer():
+            dayobs = int(dayobs)
             year = dayobs // 10000
             month = (dayobs // 100) % 100
             day = dayobs % 100
-- 
2.43.0


From 6fc1ede9a9f7727e121daabd1fa9822f2772a273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:41 +0000
Subject: [PATCH 130/159] fix: dayobs_to_date takes times in any time scale

---
 rubin_sim/sim_archive/future_vsarch.py | 2 +-
 rubin_sim/sim_archive/util.py          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/sim_archive/future_vsarch.py b/rubin_sim/sim_archive/future_vsarch.py
index 7df68fb..ae6a508 100644
--- a/rubin_sim/sim_archive/future_vsarch.py
+++ b/rubin_sim/sim_archive/future_vsarch.py
@@ -95,7 +95,7 @@ def _dayobs_to_date(dayobs: str | date | int | Time) -> date:
         case Time():
             # Pacify type checkers
             assert isinstance(dayobs, Time)
-            dayobs_dt = dayobs.to_datetime(timezone=timezone(timedelta(hours=-12)))
+            dayobs_dt = dayobs.utc.to_datetime(timezone=timezone(timedelta(hours=-12)))
             if isinstance(dayobs_dt, datetime):
                 dayobs = dayobs_dt.date()
             else:
diff --git a/rubin_sim/sim_archive/util.py b/rubin_sim/sim_archive/util.py
index 4debc4c..fbb54a6 100644
--- a/rubin_sim/sim_archive/util.py
+++ b/rubin_sim/sim_archive/util.py
@@ -35,7 +35,7 @@ def dayobs_to_date(dayobs: str | date | int | Time) -> date:
         case Time():
             # Pacify type checkers
             assert isinstance(dayobs, Time)
-            dayobs_dt = dayobs.to_datetime(timezone=timezone(timedelta(hours=-12)))
+            dayobs_dt = dayobs.utc.to_datetime(timezone=timezone(timedelta(hours=-12)))
             if isinstance(dayobs_dt, datetime):
                 dayobs = dayobs_dt.date()
             else:
-- 
2.43.0


From b3332fde6751660f796aea2b6a70d0fb7b0ce505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:41 +0000
Subject: [PATCH 131/159] fix: visits of the simulation without a url for its
 visits

---
 rubin_sim/sim_archive/sim_archive.py | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/rubin_sim/sim_archive/sim_archive.py b/rubin_sim/sim_archive/sim_archive.py
index 84487df..61ba6e5 100644
--- a/rubin_sim/sim_archive/sim_archive.py
+++ b/rubin_sim/sim_archive/sim_archive.py
@@ -399,6 +399,15 @@ def find_latest_prenight_sim_for_nights(
     return result
 
 
+def _get_visits_resource(sim_metadata: dict) -> ResourcePath:
+    # A missing url or set of files can be None or NaN.
+    if isinstance(sim_metadata["visitseq_url"], str):
+        return ResourcePath(sim_metadata["visitseq_url"])
+    if isinstance(sim_metadata["files"], dict) and "opsim" in sim_metadata["files"]:
+        return ResourcePath(sim_metadata["files"]["opsim"])
+    raise ValueError("No visits found")
+
+
 def fetch_sim_for_nights(
     first_day_obs: str | None = None,
     last_day_obs: str | None = None,
@@ -449,24 +458,12 @@ def fetch_sim_for_nights(
             this_sim = find_latest_prenight_sim_for_nights(first_day_obs, last_day_obs, **which_sim)
             if len(this_sim) == 0:
                 raise ValueError("No matching simulations found")
-            visitseq_url = this_sim["visitseq_url"]
-            if visitseq_url is not None:
-                opsim_rp = ResourcePath(visitseq_url)
-            elif "opsim" in this_sim["files"]:
-                opsim_rp = ResourcePath(this_sim["files"]["opsim"])
-            else:
-                raise ValueError("No visits found")
+            opsim_rp = _get_visits_resource(this_sim)
         case None:
             this_sim = find_latest_prenight_sim_for_nights(first_day_obs, last_day_obs)
             if len(this_sim) == 0:
                 raise ValueError("No matching simulations found")
-            visitseq_url = this_sim["visitseq_url"]
-            if visitseq_url is not None:
-                opsim_rp = ResourcePath(visitseq_url)
-            elif "opsim" in this_sim["files"]:
-                opsim_rp = ResourcePath(this_sim["files"]["opsim"])
-            else:
-                raise ValueError("Ne visits found")
+            opsim_rp = _get_visits_resource(this_sim)
         case _:
             raise NotImplementedError()
 
-- 
2.43.0


From 4550dbad532f09b0e81117917e4b47e012a3700d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:41 +0000
Subject: [PATCH 132/159] fix: text in the prenight index file stays text

---
 rubin_sim/sim_archive/prenightindex.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/sim_archive/prenightindex.py b/rubin_sim/sim_archive/prenightindex.py
index e81f6dc..01b6f69 100644
--- a/rubin_sim/sim_archive/prenightindex.py
+++ b/rubin_sim/sim_archive/prenightindex.py
@@ -133,7 +133,11 @@ def get_prenight_index_from_bucket(
         .join(f"{telescope}_prenights_for_{isodate}.json")
     )
     with prenight_index_resource_path.as_local() as local_resource_path:
-        prenights = pd.read_json(local_resource_path.ospath, orient="index")
+        # Do not guess types: a version or label can look like a number.
+        prenights = pd.read_json(local_resource_path.ospath, orient="index", dtype=False, convert_axes=False)
+
+    if "creation_time" in prenights.columns:
+        prenights["creation_time"] = pd.to_datetime(prenights["creation_time"], utc=True)
 
     prenights.index.name = "visitseq_uuid"
 
-- 
2.43.0


From a087789ee82c964f1c0d5a7eee1187e41576c95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:41 +0000
Subject: [PATCH 133/159] fix: finding a simulation by creation date and number
 in an index file

---
 rubin_sim/sim_archive/prenightindex.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/rubin_sim/sim_archive/prenightindex.py b/rubin_sim/sim_archive/prenightindex.py
index 01b6f69..26bb82a 100644
--- a/rubin_sim/sim_archive/prenightindex.py
+++ b/rubin_sim/sim_archive/prenightindex.py
@@ -283,19 +283,16 @@ def _get_sim_uuid_from_metadata_index(
         If no simulation is found matching the specified criteria.
     """
     # Accept ISO style string for day_obs
-    if isinstance(day_obs, str):
-        day_obs = day_obs.replace("-", "")
-
-    day_obs = int(
-        f"{day_obs.year:04d}{day_obs.month:02d}{day_obs.day:02d}" if isinstance(day_obs, date) else day_obs
-    )
-    assert isinstance(day_obs, int)
+    day_obs = dayobs_to_date(day_obs)
+    sim_date = dayobs_to_date(sim_date)
 
     maybe_uuid: UUID | None = None
 
     for telescope in TELESCOPES:
         prenight_index = get_prenight_index(day_obs, telescope, **kwargs)
-        matching_sims = (prenight_index.sim_creation_day_obs == sim_date) & (
+        if len(prenight_index) == 0:
+            continue
+        matching_sims = (prenight_index.sim_creation_day_obs.map(dayobs_to_date) == sim_date) & (
             prenight_index.daily_id == int(daily_id)
         )
         if np.any(matching_sims):
-- 
2.43.0


From f759a1c93dccf4ee8e349f8a9e0eb3e6ae1ac681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:41 +0000
Subject: [PATCH 134/159] fix: metadata of a simulation for a day given as an
 ISO date

---
 rubin_sim/sim_archive/prenightindex.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/rubin_sim/sim_archive/prenightindex.py b/rubin_sim/sim_archive/prenightindex.py
index 26bb82a..c9f42e6 100644
--- a/rubin_sim/sim_archive/prenightindex.py
+++ b/rubin_sim/sim_archive/prenightindex.py
@@ -382,20 +382,12 @@ def _get_sim_metadata_from_metadata_index(
         simulations are found with the same UUID (indicating a problem in the
         metadata database).
     """
-    day_obs = int(
-        f"{day_obs.year:04d}{day_obs.month:02d}{day_obs.day:02d}" if isinstance(day_obs, date) else day_obs
-    )
+    day_obs = dayobs_to_date(day_obs)
 
-    visitseq_uuid_str: str | None = None
     if isinstance(visitseq_uuid, str):
-        assert isinstance(visitseq_uuid, str)
-        visitseq_uuid_str = visitseq_uuid
         visitseq_uuid = UUID(visitseq_uuid)
-    else:
-        visitseq_uuid_str = str(visitseq_uuid)
-
-    assert isinstance(visitseq_uuid_str, str)
     assert isinstance(visitseq_uuid, UUID)
+    visitseq_uuid_str = str(visitseq_uuid)
 
     maybe_sim_index_info: None | pd.Series | pd.DataFrame = None
     for telescope in TELESCOPES:
-- 
2.43.0


From 88b602768e44807e0940f92d68599b2f9e99a623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:13 +0000
Subject: [PATCH 135/159] fix: remove the column name, not its letters, from
 metric names

---
 rubin_sim/maf/batches/common.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/maf/batches/common.py b/rubin_sim/maf/batches/common.py
index e942d87..e8e16c9 100644
--- a/rubin_sim/maf/batches/common.py
+++ b/rubin_sim/maf/batches/common.py
@@ -175,7 +175,7 @@ def standard_metrics(colname, replace_colname=None):
             if len(replace_colname) > 0:
                 m.name = m.name.replace("%s" % colname, "%s" % replace_colname)
             else:
-                m.name = m.name.rstrip(" %s" % colname)
+                m.name = m.name.removesuffix(" %s" % colname)
     return standardMetrics
 
 
@@ -213,7 +213,7 @@ def extended_metrics(colname, replace_colname=None):
             if len(replace_colname) > 0:
                 m.name = m.name.replace("%s" % colname, "%s" % replace_colname)
             else:
-                m.name = m.name.rstrip(" %s" % colname)
+                m.name = m.name.removesuffix(" %s" % colname)
     return extendedMetrics
 
 
@@ -248,7 +248,7 @@ def standard_angle_metrics(colname, replace_colname=None):
             if len(replace_colname) > 0:
                 m.name = m.name.replace("%s" % colname, "%s" % replace_colname)
             else:
-                m.name = m.name.rstrip(" %s" % colname)
+                m.name = m.name.removesuffix(" %s" % colname)
     return standardAngleMetrics
 
 
-- 
2.43.0


From 755a3cec14206f6d0e1cea6f6c54f6b800a73d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:13 +0000
Subject: [PATCH 136/159] fix: read the requested 3d dust map and check its
 nside on every call

---
 rubin_sim/maf/maps/ebv_3d_hp.py | 43 +++++++++++++++------------------
 1 file changed, 20 insertions(+), 23 deletions(-)

diff --git a/rubin_sim/maf/maps/ebv_3d_hp.py b/rubin_sim/maf/maps/ebv_3d_hp.py
index ba0dfaf..58149c1 100644
--- a/rubin_sim/maf/maps/ebv_3d_hp.py
+++ b/rubin_sim/maf/maps/ebv_3d_hp.py
@@ -68,15 +68,8 @@ def ebv_3d_hp(
             test_path = os.path.join(get_data_dir(), "maps/DustMaps3D", map_file)
             if os.path.isfile(test_path):
                 map_file = test_path
-    # Keep track of what nside and what map_file we're using
-    if not hasattr(ebv_3d_hp, "map_file"):
-        ebv_3d_hp.mapFile = map_file
-        ebv_3d_hp.nside = nside
-
     # Do we need to re-read from disk?
-    if (not hasattr(ebv_3d_hp, "ebvs")) | (not hasattr(ebv_3d_hp, "dists")) | (map_file != ebv_3d_hp.mapFile):
-        ebv_3d_hp.mapFile = map_file
-        ebv_3d_hp.nside = nside
+    if getattr(ebv_3d_hp, "map_file", None) != map_file:
         # Read map from disk
         hdul = fits.open(map_file)
         # hpids = hdul[0].data
@@ -87,22 +80,7 @@ def ebv_3d_hp(
         hdul.close()
 
         # Check additional healpix information from the header
-        map_nside = hdr["NSIDE"]
         nested = hdr["NESTED"]
-        if nside != map_nside:
-            warnings.warn(
-                f"Map nside {map_nside} did not match expected nside {nside}; "
-                f"Will use nside from map data."
-            )
-            if pixels is not None:
-                # We're just going to raise an exception here
-                # because this could mean bad things.
-                raise ValueError(
-                    f"Map nside {map_nside} did not match expected nside {nside}, "
-                    f"and pixels provided; this can potentially indicate a serious "
-                    f"error. Make nsides match or specify ra/dec instead of pixels."
-                )
-            nside = map_nside
         # Nested healpix data will not match the healpix arrays
         # for the slicers (at this time)
         if nested:
@@ -112,8 +90,27 @@ def ebv_3d_hp(
                 ebvs[:, i] = hp.reorder(ebvs[:, i], "nest", "ring")
         ebv_3d_hp.dists = dists
         ebv_3d_hp.ebvs = ebvs
+        # Keep track of what nside and what map_file we're using
+        ebv_3d_hp.nside = hdr["NSIDE"]
+        ebv_3d_hp.map_file = map_file
         print(f"Read map {map_file} from disk")
 
+    map_nside = ebv_3d_hp.nside
+    if nside != map_nside:
+        warnings.warn(
+            f"Map nside {map_nside} did not match expected nside {nside}; "
+            f"Will use nside from map data."
+        )
+        if pixels is not None:
+            # We're just going to raise an exception here
+            # because this could mean bad things.
+            raise ValueError(
+                f"Map nside {map_nside} did not match expected nside {nside}, "
+                f"and pixels provided; this can potentially indicate a serious "
+                f"error. Make nsides match or specify ra/dec instead of pixels."
+            )
+        nside = map_nside
+
     if pixels is not None:
         # Assume if pixels is set, then interp is irrelevant
         dists = ebv_3d_hp.dists[pixels]
-- 
2.43.0


From fcee6a560f417553e0d710dbbd9a3bf55ce7e71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:13 +0000
Subject: [PATCH 137/159] fix: keep one value per map point when there is a
 single point

---
 rubin_sim/maf/maps/ebv_3d_hp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/maf/maps/ebv_3d_hp.py b/rubin_sim/maf/maps/ebv_3d_hp.py
index 58149c1..5dfff5c 100644
--- a/rubin_sim/maf/maps/ebv_3d_hp.py
+++ b/rubin_sim/maf/maps/ebv_3d_hp.py
@@ -158,8 +158,8 @@ def get_x_at_nearest_y(x, y, x_goal):
     if x.ndim == 2:
         idx_min = np.argmin(np.abs(x - x_goal), axis=1)
         i_expand = np.expand_dims(idx_min, axis=-1)
-        x_closest = np.take_along_axis(x, i_expand, axis=-1).squeeze()
-        y_closest = np.take_along_axis(y, i_expand, axis=-1).squeeze()
+        x_closest = np.take_along_axis(x, i_expand, axis=-1).squeeze(axis=-1)
+        y_closest = np.take_along_axis(y, i_expand, axis=-1).squeeze(axis=-1)
     else:
         idx_min = np.argmin(np.abs(x - x_goal))
         x_closest = x[idx_min]
-- 
2.43.0


From 87e5ee279a776601c8d2a09759384e2e4199e99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:13 +0000
Subject: [PATCH 138/159] fix: read the requested galactic plane priority maps

---
 .../maf/maps/galactic_plane_priority_maps.py     | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/rubin_sim/maf/maps/galactic_plane_priority_maps.py b/rubin_sim/maf/maps/galactic_plane_priority_maps.py
index fa32a39..d9bd972 100644
--- a/rubin_sim/maf/maps/galactic_plane_priority_maps.py
+++ b/rubin_sim/maf/maps/galactic_plane_priority_maps.py
@@ -93,14 +93,17 @@ def galplane_priority_map(
     if nside != 64:
         raise RuntimeError("Currently only available with nside=64")
 
+    if map_path is not None:
+        data_dir = map_path
+    else:
+        data_dir = os.path.join(get_data_dir(), "maps", "GalacticPlanePriorityMaps")
+    source = (data_dir, bool(use_alt_maps))
+
     # Do we need to read from disk?
-    if not hasattr(galplane_priority_map, "maps"):
+    if getattr(galplane_priority_map, "source", None) != source:
         galplane_priority_map.nside = 64
         galplane_priority_map.filterlist = ["u", "g", "r", "i", "z", "y", "sum"]
-        if map_path is not None:
-            data_dir = map_path
-        else:
-            data_dir = os.path.join(get_data_dir(), "maps", "GalacticPlanePriorityMaps")
+        galplane_priority_map.source = None
         galplane_priority_map.maps = {}
         science_maps = []
         for f in galplane_priority_map.filterlist:
@@ -115,6 +118,7 @@ def galplane_priority_map(
                 science_maps += list(galplane_priority_map.maps[f].dtype.names)
             science_maps = list(set(science_maps))
             galplane_priority_map.science_maps = science_maps
+        galplane_priority_map.source = source
 
     galplane_priority_map.keys = [
         gp_priority_map_components_to_keys(f, s)
@@ -173,7 +177,7 @@ class GalacticPlanePriorityMap(BaseMap):
     """
 
     def __init__(self, interp=False, nside=64, map_path=None):
-        self.keynames = galplane_priority_map(get_keys=True)
+        self.keynames = galplane_priority_map(get_keys=True, map_path=map_path)
         self.interp = interp
         self.nside = nside
         self.map_path = map_path
-- 
2.43.0


From 7fa25ab2bdf0fa714ec6cc0599446ad12a3c57dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:13 +0000
Subject: [PATCH 139/159] fix: sort nightly values by the requested time column

---
 rubin_sim/maf/utils/maf_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/utils/maf_utils.py b/rubin_sim/maf/utils/maf_utils.py
index 47dc9a2..c23687f 100644
--- a/rubin_sim/maf/utils/maf_utils.py
+++ b/rubin_sim/maf/utils/maf_utils.py
@@ -86,7 +86,7 @@ def collapse_night(
         )
 
     night_slice = np.concatenate([night_slice[f] for f in night_slice])
-    night_slice.sort(order=["observationStartMJD"])
+    night_slice.sort(order=[mjd_col])
 
     return night_slice
 
-- 
2.43.0


From e27aa9b118753015c90deb896a28c55582129ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:14 +0000
Subject: [PATCH 140/159] fix: astrometry metrics find the stellar magnitudes
 of their sed_template

---
 rubin_sim/maf/metrics/calibration_metrics.py | 11 +++++------
 rubin_sim/maf/metrics/dcr_metric.py          |  3 +--
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/rubin_sim/maf/metrics/calibration_metrics.py b/rubin_sim/maf/metrics/calibration_metrics.py
index 87e7584..0340218 100644
--- a/rubin_sim/maf/metrics/calibration_metrics.py
+++ b/rubin_sim/maf/metrics/calibration_metrics.py
@@ -7,7 +7,6 @@ __all__ = (
 )
 
 import numpy as np
-import rubin_scheduler.utils as utils
 from scipy.optimize import curve_fit
 
 import rubin_sim.maf.utils as mafUtils
@@ -78,7 +77,7 @@ class ParallaxMetric(BaseMetric):
             for f in filters:
                 self.mags[f] = rmag
         else:
-            self.mags = utils.stellarMags(sed_template, rmag=rmag)
+            self.mags = mafUtils.stellar_mags(sed_template, rmag=rmag)
         self.atm_err = atm_err
         self.normalize = normalize
         self.comment = (
@@ -216,7 +215,7 @@ class ProperMotionMetric(BaseMetric):
             for f in filters:
                 self.mags[f] = rmag
         else:
-            self.mags = utils.stellarMags(sed_template, rmag=rmag)
+            self.mags = mafUtils.stellar_mags(sed_template, rmag=rmag)
         self.atm_err = atm_err
         self.normalize = normalize
         self.baseline = baseline
@@ -359,7 +358,7 @@ class ParallaxCoverageMetric(BaseMetric):
             for f in filters:
                 self.mags[f] = rmag
         else:
-            self.mags = utils.stellarMags(sed_template, rmag=rmag)
+            self.mags = mafUtils.stellar_mags(sed_template, rmag=rmag)
         self.atm_err = atm_err
         caption = "Parallax factor coverage for an r=%.2f star (0 is bad, 0.5-1 is good). " % (rmag)
         caption += "One expects the parallax factor coverage to vary because stars on the ecliptic "
@@ -437,7 +436,7 @@ class ParallaxDcrDegenMetric(BaseMetric):
         r-band magnitude of the fiducual star that is being used (mag).
     SedTemplate : `str`
         The SED template to use for fiducia star colors,
-        passed to rubin_scheduler.utils.stellarMags.
+        passed to rubin_sim.maf.utils.stellar_mags.
         Default 'flat'
     tol : `float`
         Tolerance for how well curve_fit needs to work before
@@ -487,7 +486,7 @@ class ParallaxDcrDegenMetric(BaseMetric):
             for f in ["u", "g", "r", "i", "z", "y"]:
                 self.mags[f] = rmag
         else:
-            self.mags = utils.stellarMags(sed_template, rmag=rmag)
+            self.mags = mafUtils.stellar_mags(sed_template, rmag=rmag)
         self.atm_err = atm_err
 
     def _positions(self, x, a, b):
diff --git a/rubin_sim/maf/metrics/dcr_metric.py b/rubin_sim/maf/metrics/dcr_metric.py
index 23d9d67..9e14272 100644
--- a/rubin_sim/maf/metrics/dcr_metric.py
+++ b/rubin_sim/maf/metrics/dcr_metric.py
@@ -1,7 +1,6 @@
 __all__ = ("DcrPrecisionMetric",)
 
 import numpy as np
-import rubin_scheduler.utils as utils
 
 import rubin_sim.maf.utils as mafUtils
 
@@ -41,7 +40,7 @@ class DcrPrecisionMetric(BaseMetric):
             for f in self.filters:
                 self.mags[f] = rmag
         else:
-            self.mags = utils.stellarMags(sed_template, rmag=rmag)
+            self.mags = mafUtils.stellar_mags(sed_template, rmag=rmag)
         cols = [
             "ra_dcr_amp",
             "dec_dcr_amp",
-- 
2.43.0


From fa73ccfdf9f170b4e14d607b41ddcc3d14fe4ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:21 +0000
Subject: [PATCH 141/159] fix: parallax coverage wraps its angles at 2 pi

---
 rubin_sim/maf/metrics/calibration_metrics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/calibration_metrics.py b/rubin_sim/maf/metrics/calibration_metrics.py
index 0340218..0e6d3d2 100644
--- a/rubin_sim/maf/metrics/calibration_metrics.py
+++ b/rubin_sim/maf/metrics/calibration_metrics.py
@@ -368,13 +368,15 @@ class ParallaxCoverageMetric(BaseMetric):
 
     def _theta_check(self, ra_pi_amp, dec_pi_amp, snr):
         good = np.where(snr >= self.snr_limit)
+        if np.size(good[0]) == 0:
+            return 0.0
         theta = np.arctan2(dec_pi_amp[good], ra_pi_amp[good])
         # Make values between 0 and 2pi
         theta = theta - np.min(theta)
         result = 0.0
         if np.max(theta) >= self.theta_range:
             # Check that things are in different quadrants
-            theta = (theta + np.pi) % 2.0 * np.pi
+            theta = (theta + np.pi) % (2.0 * np.pi)
             theta = theta - np.min(theta)
             if np.max(theta) >= self.theta_range:
                 result = 1
-- 
2.43.0


From c009ab11b96e79579663db7891b477c37703dee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:21 +0000
Subject: [PATCH 142/159] fix: ParallaxDcrDegenMetric declares the band column
 it reads

---
 rubin_sim/maf/metrics/calibration_metrics.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rubin_sim/maf/metrics/calibration_metrics.py b/rubin_sim/maf/metrics/calibration_metrics.py
index 0e6d3d2..2bd5c39 100644
--- a/rubin_sim/maf/metrics/calibration_metrics.py
+++ b/rubin_sim/maf/metrics/calibration_metrics.py
@@ -481,6 +481,7 @@ class ParallaxDcrDegenMetric(BaseMetric):
             "dec_dcr_amp",
             seeing_col,
             m5_col,
+            filter_col,
         ]
         super(ParallaxDcrDegenMetric, self).__init__(cols, metric_name=metric_name, units=units, **kwargs)
         self.mags = {}
-- 
2.43.0


From 28bf9db140b14cdb262f7976d2f6e0406e230ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:21 +0000
Subject: [PATCH 143/159] fix: RadiusObsMetric reports degrees and never NaN

---
 rubin_sim/maf/metrics/calibration_metrics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/maf/metrics/calibration_metrics.py b/rubin_sim/maf/metrics/calibration_metrics.py
index 2bd5c39..c542b85 100644
--- a/rubin_sim/maf/metrics/calibration_metrics.py
+++ b/rubin_sim/maf/metrics/calibration_metrics.py
@@ -580,7 +580,7 @@ def calc_dist_cosines(ra1, dec1, ra2, dec2):
     # http://en.wikipedia.org/wiki/Great-circle_distance
     # For the purposes of these calculations, this is probably accurate enough.
     D = np.sin(dec2) * np.sin(dec1) + np.cos(dec1) * np.cos(dec2) * np.cos(ra2 - ra1)
-    D = np.arccos(D)
+    D = np.arccos(np.clip(D, -1, 1))
     return D
 
 
@@ -590,7 +590,7 @@ class RadiusObsMetric(BaseMetric):
     """
 
     def __init__(
-        self, metric_name="radiusObs", ra_col="fieldRA", dec_col="fieldDec", units="radians", **kwargs
+        self, metric_name="radiusObs", ra_col="fieldRA", dec_col="fieldDec", units="degrees", **kwargs
     ):
         self.ra_col = ra_col
         self.dec_col = dec_col
-- 
2.43.0


From f24ff98e26488d8eb8d730e59440f1020d32c53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:21 +0000
Subject: [PATCH 144/159] fix: brown dwarf L3 colours are a dictionary

---
 rubin_sim/maf/metrics/brown_dwarf_metric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/brown_dwarf_metric.py b/rubin_sim/maf/metrics/brown_dwarf_metric.py
index 7ba5719..ee27fb6 100644
--- a/rubin_sim/maf/metrics/brown_dwarf_metric.py
+++ b/rubin_sim/maf/metrics/brown_dwarf_metric.py
@@ -22,7 +22,7 @@ def bd_colors(spec_type):
     result["L0"] = {"i": 16.00, "z": 14.52, "y": 13.58}
     result["L1"] = {"i": 16.41, "z": 14.93, "y": 13.97}
     result["L2"] = {"i": 16.73, "z": 15.30, "y": 14.33}
-    result["L3"] = ({"i": 17.4, "z": 15.88, "y": 14.89},)
+    result["L3"] = {"i": 17.4, "z": 15.88, "y": 14.89}
     result["L4"] = {"i": 18.35, "z": 16.68, "y": 15.66}
     result["L5"] = {"i": 18.71, "z": 16.94, "y": 15.87}
     result["L6"] = {"i": 19.27, "z": 17.35, "y": 16.27}
-- 
2.43.0


From 70b64ec8c3d826b63235b131eae595025f74ce20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:21 +0000
Subject: [PATCH 145/159] fix: SFUncertMetric keeps the weights it is given

---
 rubin_sim/maf/metrics/agnstructure.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rubin_sim/maf/metrics/agnstructure.py b/rubin_sim/maf/metrics/agnstructure.py
index 8835399..392f039 100644
--- a/rubin_sim/maf/metrics/agnstructure.py
+++ b/rubin_sim/maf/metrics/agnstructure.py
@@ -69,6 +69,8 @@ class SFUncertMetric(BaseMetric):
             # If weight is none, set weight so that sum over bins = 1
             self.weight = np.ones(len(self.bins) - 1)
             self.weight /= self.weight.sum()
+        else:
+            self.weight = np.asarray(weight)
         self.metric_name = metric_name
         self.mag = mag
         self.snr_cut = snr_cut
-- 
2.43.0


From f84e736c336fbc5feb2f4917b456c14ef300a6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:21 +0000
Subject: [PATCH 146/159] fix: ExgalM5WithCuts passes its band column on

---
 rubin_sim/maf/metrics/weak_lensing_systematics_metric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/weak_lensing_systematics_metric.py b/rubin_sim/maf/metrics/weak_lensing_systematics_metric.py
index 54e0c4e..703ab09 100644
--- a/rubin_sim/maf/metrics/weak_lensing_systematics_metric.py
+++ b/rubin_sim/maf/metrics/weak_lensing_systematics_metric.py
@@ -42,7 +42,7 @@ class ExgalM5WithCuts(BaseMetric):
         self.lsst_filter = lsst_filter
         # I thought about inheriting from ExGalM5 instead, but the columns
         # specification is more complicated
-        self.exgal_m5 = ExgalM5(m5_col=m5_col, units=units)
+        self.exgal_m5 = ExgalM5(m5_col=m5_col, units=units, filter_col=filter_col)
         super().__init__(
             col=[self.m5_col, self.filter_col],
             metric_name=metric_name,
-- 
2.43.0


From 2766055a8aa1f47bbdd4f6cb773f0d15a81262b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:21 +0000
Subject: [PATCH 147/159] fix: ColorSlope metrics pass their column names on

---
 rubin_sim/maf/metrics/color_slope_metrics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/color_slope_metrics.py b/rubin_sim/maf/metrics/color_slope_metrics.py
index b69bc10..b954313 100644
--- a/rubin_sim/maf/metrics/color_slope_metrics.py
+++ b/rubin_sim/maf/metrics/color_slope_metrics.py
@@ -109,7 +109,9 @@ class ColorSlopeMetric(BaseMetric):
 
         super().__init__(col=cols, units=units, metric_name=metric_name, **kwargs)
 
-        self.sequence_checker = CheckColorSlope(color_length=color_length, slope_length=slope_length)
+        self.sequence_checker = CheckColorSlope(
+            color_length=color_length, slope_length=slope_length, filter_col=filter_col, mjd_col=time_col
+        )
 
     def run(self, data_slice, slice_point=None):
         result = 0
-- 
2.43.0


From 9c4b03c88046d536b2ede8477feda660a53b9758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:21 +0000
Subject: [PATCH 148/159] fix: surface brightness metric refuses several bands
 and keeps given k_atm

---
 rubin_sim/maf/metrics/surfb_metric.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/maf/metrics/surfb_metric.py b/rubin_sim/maf/metrics/surfb_metric.py
index 0a9e20d..c0af524 100644
--- a/rubin_sim/maf/metrics/surfb_metric.py
+++ b/rubin_sim/maf/metrics/surfb_metric.py
@@ -140,9 +140,9 @@ class SurfaceBrightLimitMetric(BaseMetric):
 
         # Compute default zeropoints
         if zpt is None:
-            zp_inst, k_atm = load_inst_zeropoints()
+            zp_inst, k_atm_inst = load_inst_zeropoints()
             self.zpt = zp_inst
-            self.k_atm = k_atm
+            self.k_atm = k_atm_inst if k_atm is None else k_atm
         else:
             self.zpt = zpt
             self.k_atm = k_atm
@@ -150,7 +150,7 @@ class SurfaceBrightLimitMetric(BaseMetric):
     def run(self, data_slice, slice_point):
         filtername = np.unique(data_slice[self.filter_col])
         if np.size(filtername) > 1:
-            ValueError("Can only coadd depth in single filter, got filters %s" % filtername)
+            raise ValueError("Can only coadd depth in single filter, got filters %s" % filtername)
         filtername = filtername[0]
 
         # Scale up readnoise if the visit was split into multiple snaps
-- 
2.43.0


From 249a89fc2a3dde7f9cd698f0a91b32ca2b37759d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:21 +0000
Subject: [PATCH 149/159] fix: NgalScaleMetric ignores visits in other bands

---
 rubin_sim/maf/metrics/scaling_metrics.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/maf/metrics/scaling_metrics.py b/rubin_sim/maf/metrics/scaling_metrics.py
index 7a9a884..b499dfe 100644
--- a/rubin_sim/maf/metrics/scaling_metrics.py
+++ b/rubin_sim/maf/metrics/scaling_metrics.py
@@ -57,16 +57,18 @@ class NgalScaleMetric(BaseMetric):
     def run(self, data_slice, slice_point):
         # I'm a little confused why there's a dust cut and an M5 cut,
         # but whatever
-        a_x = self.ax1[data_slice[self.filter_col][0]] * slice_point["ebv"]
+        a_x = self.ax1[self.filtername] * slice_point["ebv"]
         if a_x > self.a_max:
             return 0
 
         in_filt = np.where(data_slice[self.filter_col] == self.filtername)
+        if np.size(in_filt[0]) == 0:
+            return 0
         coadd_m5 = 1.25 * np.log10(np.sum(10.0 ** (0.8 * data_slice[self.m5_col][in_filt])))
         if coadd_m5 < self.m5min:
             return 0
 
-        theta = np.median(data_slice[self.seeing_col])
+        theta = np.median(data_slice[self.seeing_col][in_filt])
         # N gals per arcmin2
         ngal_per_arcmin2 = 57 * (0.75 / theta) ** 1.5
 
-- 
2.43.0


From e5e1a81c7a15727435b839c1f702602e826db515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:21 +0000
Subject: [PATCH 150/159] fix: quasar counts are bad where the band has no
 visits

---
 rubin_sim/maf/metrics/qso_number_counts_metric.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rubin_sim/maf/metrics/qso_number_counts_metric.py b/rubin_sim/maf/metrics/qso_number_counts_metric.py
index a1a927b..cdeba9f 100644
--- a/rubin_sim/maf/metrics/qso_number_counts_metric.py
+++ b/rubin_sim/maf/metrics/qso_number_counts_metric.py
@@ -120,6 +120,8 @@ class QSONumberCountsMetric(BaseMetric):
 
         # For the data_slice, get the 5 sigma limiting magnitude.
         d_s = data_slice[data_slice[self.filter_col] == self.lsst_filter]
+        if len(d_s) == 0:
+            return self.badval
         mlim5 = self.exgal_m5.run(d_s, slice_point)
 
         # Get the slicer pixel area.
-- 
2.43.0


From 03e972ce697d0c511da887e79b85f0316bed3f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:21 +0000
Subject: [PATCH 151/159] fix: linear multiband models subtract the mean depth
 of each band

---
 rubin_sim/maf/metrics/uniformity_metrics.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/rubin_sim/maf/metrics/uniformity_metrics.py b/rubin_sim/maf/metrics/uniformity_metrics.py
index 97d1659..4046cba 100644
--- a/rubin_sim/maf/metrics/uniformity_metrics.py
+++ b/rubin_sim/maf/metrics/uniformity_metrics.py
@@ -124,9 +124,6 @@ class SingleLinearMultibandModelMetric(BaseMetric):
                 for lsst_filter in self.bands
             ]
         ).T
-        for i, lsst_filter in enumerate(self.bands):
-            if lsst_filter in self.mean_depth:
-                depths[i] -= self.mean_depth[lsst_filter]
         # Don't raise Exceptions in the middle of metrics -
         # assert depths.shape[0] >= 1
         if depths.shape[0] < 1:
@@ -136,17 +133,16 @@ class SingleLinearMultibandModelMetric(BaseMetric):
             return self.badval
 
         for i, lsst_filter in enumerate(self.bands):
-            if (
-                lsst_filter in self.min_depth_cut
-                and depths[0, i] < self.min_depth_cut[lsst_filter] - self.mean_depth[lsst_filter]
-            ):
+            if lsst_filter in self.min_depth_cut and depths[0, i] < self.min_depth_cut[lsst_filter]:
                 return self.badval
-            if (
-                lsst_filter in self.max_depth_cut
-                and depths[0, i] > self.max_depth_cut[lsst_filter] - self.mean_depth[lsst_filter]
-            ):
+            if lsst_filter in self.max_depth_cut and depths[0, i] > self.max_depth_cut[lsst_filter]:
                 return self.badval
 
+        # if provided, subtract the mean
+        for i, lsst_filter in enumerate(self.bands):
+            if lsst_filter in self.mean_depth:
+                depths[:, i] -= self.mean_depth[lsst_filter]
+
         val = self.post_processing_fn(self.cst + np.dot(depths, self.model_arr))
         return val
 
@@ -296,7 +292,7 @@ class NestedLinearMultibandModelMetric(BaseMetric):
             # if provided, subtract the mean
             for i, lsst_filter in enumerate(lsst_filters):
                 if lsst_filter in self.mean_depth:
-                    depths[i] -= self.mean_depth[lsst_filter]
+                    depths[:, i] -= self.mean_depth[lsst_filter]
 
             # now assemble the results
             model_arr = np.array([model_dict[x] if x in model_dict else 0.0 for x in lsst_filters])
-- 
2.43.0


From 947745379e843263fecf2d82e62d8ab3b47ff858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:21 +0000
Subject: [PATCH 152/159] fix: galactic plane season gaps leave the visits
 alone and ask for their map

---
 rubin_sim/maf/metrics/galplane_time_sampling_metrics.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/maf/metrics/galplane_time_sampling_metrics.py b/rubin_sim/maf/metrics/galplane_time_sampling_metrics.py
index e00a8f4..5076c79 100644
--- a/rubin_sim/maf/metrics/galplane_time_sampling_metrics.py
+++ b/rubin_sim/maf/metrics/galplane_time_sampling_metrics.py
@@ -196,11 +196,12 @@ class GalPlaneSeasonGapsTimescaleMetric(BaseMetric):
         else:
             metric_name = kwargs["metric_name"]
             del kwargs["metric_name"]
+        maps = ["GalacticPlanePriorityMap"]
         for tau in self.tau_var:
             tau_reduce_name = f"reduce_Tau_{tau:.1f}".replace(".", "_")
             newmethod = help_set_reduce_func(self, None, tau)
             setattr(self, tau_reduce_name, MethodType(newmethod, tau_reduce_name))
-        super().__init__(col=[self.mjd_col, self.m5_col], metric_name=metric_name, **kwargs)
+        super().__init__(col=[self.mjd_col, self.m5_col], metric_name=metric_name, maps=maps, **kwargs)
         for i, tau in enumerate(self.tau_var):
             self.reduce_order[f"reduce_Tau_{tau:.1f}".replace(".", "_").replace("reduce", "")] = i
 
@@ -213,8 +214,7 @@ class GalPlaneSeasonGapsTimescaleMetric(BaseMetric):
         ):
             return self.badval
         # Find the length of the gaps between each season
-        times = data_slice[self.mjd_col]
-        times.sort()
+        times = np.sort(data_slice[self.mjd_col])
         # data = np.sort(data_slice[self.mjd_col], order=self.mjd_col)
         # SlicePoints ra/dec are always in radians -
         # convert to degrees to calculate season
-- 
2.43.0


From 7f354ec891ae8d620022a01d304bce64f5ce9602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:21 +0000
Subject: [PATCH 153/159] fix: galactic plane visit thresholds accept a list of
 timescales

---
 rubin_sim/maf/metrics/galactic_plane_metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/galactic_plane_metrics.py b/rubin_sim/maf/metrics/galactic_plane_metrics.py
index ecdd7e0..8302ffa 100644
--- a/rubin_sim/maf/metrics/galactic_plane_metrics.py
+++ b/rubin_sim/maf/metrics/galactic_plane_metrics.py
@@ -51,7 +51,7 @@ def galplane_nvisits_thresholds(tau_obs, nyears=10):
     # Estimate that the observing season is 6.5 months long, not a full year
     # And account for the fact that each 'night' will (currently) need 2 visits
     nnights = nnights_total * (6.5 / 12) * 2
-    n_visits_thresholds = nnights / tau_obs
+    n_visits_thresholds = nnights / np.asarray(tau_obs)
     return n_visits_thresholds
 
 
-- 
2.43.0


From f5639f7a72163fa48f274a79f0bbdbec7a8aba21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:21 +0000
Subject: [PATCH 154/159] fix: GalaxyCountsMetric uses the extinction of its
 slice point

---
 rubin_sim/maf/maf_contrib/lss_metrics.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/maf/maf_contrib/lss_metrics.py b/rubin_sim/maf/maf_contrib/lss_metrics.py
index ac59f3f..a14d137 100644
--- a/rubin_sim/maf/maf_contrib/lss_metrics.py
+++ b/rubin_sim/maf/maf_contrib/lss_metrics.py
@@ -15,10 +15,15 @@ class GalaxyCountsMetric(BaseMetric):
 
     def __init__(self, m5_col="fiveSigmaDepth", nside=128, metric_name="GalaxyCounts", **kwargs):
         self.m5_col = m5_col
-        super(GalaxyCountsMetric, self).__init__(col=self.m5_col, metric_name=metric_name, **kwargs)
         # Use the extinction corrected coadded depth metric to calculate
         # the depth at each point.
         self.coaddmetric = ExgalM5(m5_col=self.m5_col)
+        super(GalaxyCountsMetric, self).__init__(
+            col=[self.m5_col, self.coaddmetric.filter_col],
+            metric_name=metric_name,
+            maps=self.coaddmetric.maps,
+            **kwargs,
+        )
         # Total of 41253.0 galaxies across the sky (at what magnitude?).
         # This didn't seem to work quite right for me..
         self.scale = 41253.0 / hp.nside2npix(nside) / 5000.0
@@ -34,7 +39,7 @@ class GalaxyCountsMetric(BaseMetric):
 
     def run(self, data_slice, slice_point=None):
         # Calculate the coadded depth.
-        coaddm5 = self.coaddmetric.run(data_slice)
+        coaddm5 = self.coaddmetric.run(data_slice, slice_point)
         # Calculate the number of galaxies.
         # From Carroll et al, 2014 SPIE (http://arxiv.org/abs/1501.04733)
         # I'm not entirely certain this gives a properly calibrated number
-- 
2.43.0


From dbaf97ff9ea4c8ecad5281a9dc7f76356c44e012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:21 +0000
Subject: [PATCH 155/159] fix: line-fit uncertainty does not lose short time
 spans to rounding

---
 rubin_sim/maf/utils/astrometry_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rubin_sim/maf/utils/astrometry_utils.py b/rubin_sim/maf/utils/astrometry_utils.py
index 3d39180..d529349 100644
--- a/rubin_sim/maf/utils/astrometry_utils.py
+++ b/rubin_sim/maf/utils/astrometry_utils.py
@@ -24,6 +24,9 @@ def sigma_slope(x, sigma_y):
         The uncertainty in the line fit
     """
     w = 1.0 / sigma_y**2
+    if np.size(x) > 0:
+        # The slope does not depend on the origin of x
+        x = x - x[0]
     denom = np.sum(w) * np.sum(w * x**2) - np.sum(w * x) ** 2
     if denom <= 0:
         return np.nan
-- 
2.43.0


From e2ec350697e23c005b74af68fa8d6d34756557a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:21 +0000
Subject: [PATCH 156/159] fix: transient criteria are judged together for each
 light curve

---
 rubin_sim/maf/metrics/transient_metrics.py | 26 ++++++++++++----------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/rubin_sim/maf/metrics/transient_metrics.py b/rubin_sim/maf/metrics/transient_metrics.py
index fe66128..cefae58 100644
--- a/rubin_sim/maf/metrics/transient_metrics.py
+++ b/rubin_sim/maf/metrics/transient_metrics.py
@@ -196,27 +196,27 @@ class TransientMetric(BaseMetric):
                 n_trans_max -= 1
             if self.survey_start is None:
                 survey_start = data_slice[self.mjd_col].min()
+            else:
+                survey_start = self.survey_start
             time = (data_slice[self.mjd_col] - survey_start + tshift) % self.trans_duration
 
             # Which lightcurve does each point belong to
-            lc_number = np.floor((data_slice[self.mjd_col] - survey_start) / self.trans_duration)
+            lc_number = np.floor((data_slice[self.mjd_col] - survey_start + tshift) / self.trans_duration)
 
             lc_mags = self.light_curve(time, data_slice[self.filter_col])
 
-            # How many criteria needs to be passed
-            detect_thresh = 0
-
             # Flag points that are above the SNR limit
             detected = np.zeros(data_slice.size, dtype=int)
             detected[np.where(lc_mags < data_slice[self.m5_col] + self.detect_m5_plus)] += 1
-            detect_thresh += 1
+            # Flag points of light curves which also pass the other criteria
+            passed = detected > 0
 
             # If we demand points on the rise
             if self.n_pre_peak > 0:
-                detect_thresh += 1
                 ord = np.argsort(data_slice[self.mjd_col])
                 data_slice = data_slice[ord]
                 detected = detected[ord]
+                passed = passed[ord]
                 lc_number = lc_number[ord]
                 time = time[ord]
                 ulc_number = np.unique(lc_number)
@@ -230,8 +230,8 @@ class TransientMetric(BaseMetric):
                     # Number of points where there are a detection
                     good = np.where(time[le:ri] < self.peak_time)
                     nd = np.sum(detected[le:ri][good])
-                    if nd >= self.n_pre_peak:
-                        detected[le:ri] += 1
+                    if nd < self.n_pre_peak:
+                        passed[le:ri] = False
 
             # Check if we need multiple points per light curve
             # or multiple filters
@@ -240,25 +240,27 @@ class TransientMetric(BaseMetric):
                 ord = np.argsort(data_slice[self.mjd_col])
                 data_slice = data_slice[ord]
                 detected = detected[ord]
+                passed = passed[ord]
                 lc_number = lc_number[ord]
                 time = time[ord]
                 ulc_number = np.unique(lc_number)
                 left = np.searchsorted(lc_number, ulc_number)
                 right = np.searchsorted(lc_number, ulc_number, side="right")
-                detect_thresh += self.n_filters
-
                 for le, ri in zip(left, right):
                     points = np.where(detected[le:ri] > 0)
                     ufilters = np.unique(data_slice[self.filter_col][le:ri][points])
                     phase_sections = np.floor(time[le:ri][points] / self.trans_duration * self.n_per_lc)
+                    n_good_filters = 0
                     for filt_name in ufilters:
                         good = np.where(data_slice[self.filter_col][le:ri][points] == filt_name)
                         if np.size(np.unique(phase_sections[good])) >= self.n_per_lc:
-                            detected[le:ri] += 1
+                            n_good_filters += 1
+                    if n_good_filters < self.n_filters:
+                        passed[le:ri] = False
 
             # Find the unique number of light curves that passed the required
             # number of conditions
-            n_detected += np.size(np.unique(lc_number[np.where(detected >= detect_thresh)]))
+            n_detected += np.size(np.unique(lc_number[np.where(passed)]))
 
         # Rather than keeping a single "detected" variable, maybe make a mask
         # for each criteria, then reduce functions like: reduce_singleDetect,
-- 
2.43.0


From d19f332637c504322993eafe272026cfeae7b0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:20 +0000
Subject: [PATCH 157/159] fix: total power ignores masked pixels and removes
 the monopole when asked

---
 rubin_sim/maf/metrics/cosmology_summary_metrics.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/rubin_sim/maf/metrics/cosmology_summary_metrics.py b/rubin_sim/maf/metrics/cosmology_summary_metrics.py
index 89eb1c6..6d03439 100644
--- a/rubin_sim/maf/metrics/cosmology_summary_metrics.py
+++ b/rubin_sim/maf/metrics/cosmology_summary_metrics.py
@@ -74,13 +74,13 @@ class TotalPowerMetric(BaseMetric):
 
     def run(self, data_slice, slice_point=None):
         # Calculate the power spectrum.
-        data = data_slice[self.colname]
+        data = np.array(data_slice[self.colname], dtype=float)
+        data[~np.isfinite(data) | (data == self.mask_val)] = hp.UNSEEN
         if self.remove_monopole:
-            data = hp.remove_monopole(data, verbose=False, bad=self.mask_val)
+            data = hp.remove_monopole(data, verbose=False)
         if self.remove_dipole:
-            cl = hp.anafast(hp.remove_dipole(data_slice[self.colname]))
-        else:
-            cl = hp.anafast(data_slice[self.colname])
+            data = hp.remove_dipole(data, verbose=False)
+        cl = hp.anafast(data)
         ell = np.arange(np.size(cl))
         condition = np.where((ell <= self.lmax) & (ell >= self.lmin))[0]
         totalpower = np.sum(cl[condition] * (2 * ell[condition] + 1))
-- 
2.43.0


From 76d2347301c65d4f35ace8f069c5e0a51dc1691e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:20 +0000
Subject: [PATCH 158/159] fix: the simple static probes figure of merit can be
 evaluated

---
 rubin_sim/maf/metrics/cosmology_summary_metrics.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/rubin_sim/maf/metrics/cosmology_summary_metrics.py b/rubin_sim/maf/metrics/cosmology_summary_metrics.py
index 6d03439..96a18f1 100644
--- a/rubin_sim/maf/metrics/cosmology_summary_metrics.py
+++ b/rubin_sim/maf/metrics/cosmology_summary_metrics.py
@@ -123,6 +123,8 @@ class StaticProbesFoMEmulatorMetricSimple(BaseMetric):
         super().__init__(col=col, **kwargs)
         if col is None:
             self.col = "metricdata"
+        else:
+            self.col = col
         self.year = year
         # Set a mask_val so that all metric data is passed
         # for summary calculation, even masked values.
@@ -170,7 +172,7 @@ class StaticProbesFoMEmulatorMetricSimple(BaseMetric):
             ]
 
         elif self.year == 6:
-            areas = [10000, 15000, 2000]
+            areas = [10000, 15000, 20000]
             depths = [25.9, 26.1, 26.3]
             fom_arr = [
                 [2.346060e02, 2.414678e02, 2.852043e02],
@@ -191,10 +193,8 @@ class StaticProbesFoMEmulatorMetricSimple(BaseMetric):
             return self.badval
 
         # Interpolate FoM to the actual values for this sim
-        areas = [[i] * 3 for i in areas]
-        depths = [depths] * 3
-        f = interpolate.RectBivateateSpline(np.ravel(areas), np.ravel(depths), np.ravel(fom_arr))
-        fom = f(area, median_depth)[0]
+        f = interpolate.RectBivariateSpline(areas, depths, fom_arr, kx=1, ky=1)
+        fom = f(area, median_depth)[0][0]
         return fom
 
 
-- 
2.43.0


From 0f3a0f9a02f528a339f9688b0a1fde55952efe50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:05 +0000
Subject: [PATCH 159/159] fix: nested linear multiband models store one number
 per model

---
 rubin_sim/maf/metrics/uniformity_metrics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/uniformity_metrics.py b/rubin_sim/maf/metrics/uniformity_metrics.py
index 4046cba..92a1471 100644
--- a/rubin_sim/maf/metrics/uniformity_metrics.py
+++ b/rubin_sim/maf/metrics/uniformity_metrics.py
@@ -298,7 +298,8 @@ class NestedLinearMultibandModelMetric(BaseMetric):
             model_arr = np.array([model_dict[x] if x in model_dict else 0.0 for x in lsst_filters])
             cst = model_dict["cst"] if "cst" in model_dict else 0.0
 
-            result_arr[binnumber] = self.post_processing_fn(cst + np.dot(depths, model_arr))
+            result = self.post_processing_fn(cst + np.dot(depths, model_arr))
+            result_arr[binnumber] = np.asarray(result).item()
 
         # returns array where each element of the original
         # input arr_of_model_dicts contains a scalar value resulting
-- 
2.43.0

