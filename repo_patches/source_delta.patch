From b7ac5dca9a471a7c7692ea69b647a0f73d43fe2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:01:24 +0000
Subject: [PATCH 01/29] fix: look up ellipsoid radii with the revision function
 that exists

ltg_ellps_radii called an undefined name and always raised NameError.
---
 glmtools/io/lightning_ellipse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glmtools/io/lightning_ellipse.py b/glmtools/io/lightning_ellipse.py
index fa0a469..1b7aa20 100644
--- a/glmtools/io/lightning_ellipse.py
+++ b/glmtools/io/lightning_ellipse.py
@@ -62,7 +62,7 @@ def ltg_ellps_radii(date):
     Returns: re_ltg_ellps, rp_ltg_ellps (meters): equatorial and polar radii
         of the lightning ellipsoid, respectively.
     """
-    re_ltg_ellps, rp_ltg_ellps = lightning_ellipse_rev[ltg_ellps_rev(date)]
+    re_ltg_ellps, rp_ltg_ellps = lightning_ellipse_rev[ltg_ellpse_rev(date)]
     return re_ltg_ellps, rp_ltg_ellps
 
 def ltg_ellps_lon_lat_to_fixed_grid(lon, lat, sat_lon, ellipse_rev,
-- 
2.43.0


From 8c24bc887e4a1563508792703057f0b3fd411588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:01:24 +0000
Subject: [PATCH 02/29] fix: build the product date from plain integers

datetime() rejects the zero-dimensional DataArrays given by the dt accessor, so
inferring the ellipsoid from the product time failed.
---
 glmtools/io/glm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/glmtools/io/glm.py b/glmtools/io/glm.py
index ac65fe6..ce1988b 100644
--- a/glmtools/io/glm.py
+++ b/glmtools/io/glm.py
@@ -552,8 +552,8 @@ class GLMDataset(OneToManyTraversal):
         if ellipse_rev < 0:
             log.info("Inferring lightning ellipsoid from GLM product time")
             pt = self.dataset.product_time.dt
-            date = datetime(pt.year, pt.month, pt.day,
-                            pt.hour, pt.minute, pt.second)
+            date = datetime(int(pt.year), int(pt.month), int(pt.day),
+                            int(pt.hour), int(pt.minute), int(pt.second))
             ellipse_rev = ltg_ellpse_rev(date)
         log.info("Using lightning ellipsoid rev {0}".format(ellipse_rev))
 
-- 
2.43.0


From 0f56323243a4805099a4830b0a07fc9a63f24fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:01:24 +0000
Subject: [PATCH 03/29] fix: allow subset_flashes to skip the event position
 check

With check_event_xy=False the intersection used a name that was never bound.
---
 glmtools/io/glm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glmtools/io/glm.py b/glmtools/io/glm.py
index ce1988b..6d3d57c 100644
--- a/glmtools/io/glm.py
+++ b/glmtools/io/glm.py
@@ -528,7 +528,7 @@ class GLMDataset(OneToManyTraversal):
             # log.debug("Subsetting bad events with override ranges {0}".format(
                 # check_event_kw))
             good_event_flash_ids = self._check_event_xy(**check_event_kw)
-        flash_ids = list(set(flash_ids) & set(good_event_flash_ids))
+            flash_ids = list(set(flash_ids) & set(good_event_flash_ids))
         return self.get_flashes(flash_ids)
 
     def get_flashes(self, flash_ids):
-- 
2.43.0


From 4c91296a64f3bf06b6c89287a1d094f01eaa247b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:01:24 +0000
Subject: [PATCH 04/29] fix: leave a dataset passed to GLMDataset unmodified

Unit conversion and repairs were written into the caller's object, so loading the
same dataset a second time failed.
---
 glmtools/io/glm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/glmtools/io/glm.py b/glmtools/io/glm.py
index 6d3d57c..1533553 100644
--- a/glmtools/io/glm.py
+++ b/glmtools/io/glm.py
@@ -189,7 +189,8 @@ class GLMDataset(OneToManyTraversal):
         self.parent_ids = ['group_parent_flash_id', 'event_parent_group_id']
 
         if isinstance(filename, xr.Dataset):
-            dataset = filename
+            # Loading repairs and rescales values, so work on our own copy.
+            dataset = filename.copy(deep=True)
             super().__init__(dataset,
                              self.entity_ids, self.parent_ids)
         else:
-- 
2.43.0


From 713f35e5d691dc29f4b128c1a48fdeecfdf2a00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:01:24 +0000
Subject: [PATCH 05/29] fix: give the last x index of a discretized location
 its own ID

The row stride was one too small, so the far end of one row shared an ID with the
start of the next.
---
 glmtools/io/glm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/glmtools/io/glm.py b/glmtools/io/glm.py
index 1533553..1d1dd32 100644
--- a/glmtools/io/glm.py
+++ b/glmtools/io/glm.py
@@ -728,8 +728,9 @@ def discretize_2d_location(x, y, scale, x_range, y_range, int_type='uint64'):
     """
     x_offset = x_range[0]
     y_offset = y_range[0]
-    discr_x_max = np.array((x_range[1]-x_offset)/scale, dtype=int_type)
-    discr_y_max = np.array((y_range[1]-y_offset)/scale, dtype=int_type)
+    # The upper end of the range has its own index, hence one more than the max.
+    discr_x_max = np.array((x_range[1]-x_offset)/scale + 1, dtype=int_type)
+    discr_y_max = np.array((y_range[1]-y_offset)/scale + 1, dtype=int_type)
     x_discr = ((x - x_offset) / scale).astype(int_type)
     y_discr = ((y - y_offset) / scale).astype(int_type)
     xy_discr = x_discr + y_discr*discr_x_max
-- 
2.43.0


From bb87d1c226637940266feed0e73f1ba34fe93bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:01:24 +0000
Subject: [PATCH 06/29] fix: traverse datasets that have an empty dimension

The missing groupby was stored as None and then dereferenced, so a file with no
lightning could not be checked or subset.
---
 glmtools/io/traversal.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/glmtools/io/traversal.py b/glmtools/io/traversal.py
index 6c0e0e3..f7f4394 100644
--- a/glmtools/io/traversal.py
+++ b/glmtools/io/traversal.py
@@ -1,6 +1,10 @@
 import collections, itertools
 import numpy as np
 
+class NoGroups(object):
+    """ Stand-in for a groupby along a dimension that has no data. """
+    groups = {}
+
 class OneToManyTraversal(object):
     def __init__(self, dataset, entity_id_vars, parent_id_vars):
         """
@@ -74,7 +78,7 @@ class OneToManyTraversal(object):
         for (entity_var, parent_var) in self._descend():
             if dataset.dims[dataset[entity_var].dims[0]] == 0:
                 # No data, so groupby will fail in xarray > 0.13
-                entity_grouper = None
+                entity_grouper = NoGroups()
             else:
                 entity_grouper = dataset.groupby(entity_var)
             self.entity_groups[entity_var] = entity_grouper
@@ -83,7 +87,7 @@ class OneToManyTraversal(object):
             else:
                 if dataset.dims[dataset[parent_var].dims[0]] == 0:
                     # No data, so groupby will fail in xarray > 0.13
-                    parent_grouper = None
+                    parent_grouper = NoGroups()
                 else:
                     parent_grouper = dataset.groupby(parent_var)
             self.parent_groups[parent_var] = parent_grouper
-- 
2.43.0


From d67c5cf64d2f8bc43363300e7c7b84b2aa2162e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:01:24 +0000
Subject: [PATCH 07/29] fix: drop children of entities that are not in the
 dataset

reduce_to_entities kept the children of requested IDs that do not exist, so the
tree repair on load left groups with no flash.
---
 glmtools/io/traversal.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/glmtools/io/traversal.py b/glmtools/io/traversal.py
index f7f4394..486cfaf 100644
--- a/glmtools/io/traversal.py
+++ b/glmtools/io/traversal.py
@@ -241,7 +241,9 @@ class OneToManyTraversal(object):
                 e_iter = (e_group[eid] for eid in entity_ids
                           if eid in e_group)
                 e_idx = list(itertools.chain.from_iterable(e_iter))
-                last_entity_ids = entity_ids # == dataset[e_var].data
+                # Skip IDs that are not in the dataset, whose children would
+                # otherwise be kept without a parent.
+                last_entity_ids = [eid for eid in entity_ids if eid in e_group]
                 if len(e_idx) == 0:
                     # xarray doesn't accept an empty array as a valid index
                     e_idx = slice(0, 0)
-- 
2.43.0


From 9e5eb0d1131b341586ab601087fae92c65233671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:01:24 +0000
Subject: [PATCH 08/29] fix: infer the aggregation interval from the time
 coordinate

pd.Timestamp rejects a zero-dimensional array, so aggregate failed without start_end.
---
 glmtools/io/imagery.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/glmtools/io/imagery.py b/glmtools/io/imagery.py
index 6f2c4bd..8a8145c 100644
--- a/glmtools/io/imagery.py
+++ b/glmtools/io/imagery.py
@@ -601,8 +601,8 @@ def aggregate(glm, minutes, start_end=None):
         start = start_end[0]
         end = start_end[1]
     else:
-        start = pd.Timestamp(glm['time'].min().data).to_pydatetime()
-        end = pd.Timestamp(glm['time'].max().data).to_pydatetime() + dt
+        start = pd.Timestamp(glm['time'].data.min()).to_pydatetime()
+        end = pd.Timestamp(glm['time'].data.max()).to_pydatetime() + dt
         # The lines below might be necessary replacements for a future version
         # start = pd.to_datetime(glm['time'].min().data).to_pydatetime()
         # end = pd.to_datetime(glm['time'].max().data).to_pydatetime() + dt
-- 
2.43.0


From 19bc4249509e11571237611c08a1a73dbcdfb731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:01:24 +0000
Subject: [PATCH 09/29] fix: aggregate group area from the group variables

The total group area was calculated from flash area and flash extent density.
---
 glmtools/io/imagery.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glmtools/io/imagery.py b/glmtools/io/imagery.py
index 8a8145c..9d0abc9 100644
--- a/glmtools/io/imagery.py
+++ b/glmtools/io/imagery.py
@@ -626,7 +626,7 @@ def aggregate(glm, minutes, start_end=None):
 
 
     sum_data['total_flash_area'] = glm.average_flash_area*glm.flash_extent_density
-    sum_data['total_group_area'] = glm.average_flash_area*glm.flash_extent_density
+    sum_data['total_group_area'] = glm.average_group_area*glm.group_extent_density
 
     t_bins = [start + dt*i for i in range(int(duration/dt)+1)]
     t_groups_sum = sum_data.groupby_bins('time', bins=t_bins)
-- 
2.43.0


From 96abe2d91a05f48b27187ffebacbd43621987b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:01:24 +0000
Subject: [PATCH 10/29] fix: aggregate each frame into the interval it starts
 in

Bins were closed on the right, so the first frame was dropped and a frame starting
on a bin edge was added to the earlier interval.
---
 glmtools/io/imagery.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/glmtools/io/imagery.py b/glmtools/io/imagery.py
index 9d0abc9..20cb8da 100644
--- a/glmtools/io/imagery.py
+++ b/glmtools/io/imagery.py
@@ -629,8 +629,8 @@ def aggregate(glm, minutes, start_end=None):
     sum_data['total_group_area'] = glm.average_group_area*glm.group_extent_density
 
     t_bins = [start + dt*i for i in range(int(duration/dt)+1)]
-    t_groups_sum = sum_data.groupby_bins('time', bins=t_bins)
-    t_groups_min = min_data.groupby_bins('time', bins=t_bins)
+    t_groups_sum = sum_data.groupby_bins('time', bins=t_bins, right=False)
+    t_groups_min = min_data.groupby_bins('time', bins=t_bins, right=False)
 
     aggregated_min = t_groups_min.min(dim='time', keep_attrs=True, skipna=True)
 
-- 
2.43.0


From 66a0d1c3319f0ef4fdab2eda80c80444c9c5e227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:01:24 +0000
Subject: [PATCH 11/29] fix: write imagery to a path that has no directory part

os.makedirs was called with an empty string.
---
 glmtools/io/imagery.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glmtools/io/imagery.py b/glmtools/io/imagery.py
index 20cb8da..6c9da68 100644
--- a/glmtools/io/imagery.py
+++ b/glmtools/io/imagery.py
@@ -522,7 +522,7 @@ def write_goes_imagery(gridder, outpath='./{dataset_name}', pad=None, scale_and_
         outfile = outpath.format(start_time=start, end_time=end,
                                  dataset_name=dataset.attrs['dataset_name'])
         enclosing_dir = os.path.dirname(outfile)
-        if os.path.exists(enclosing_dir) == False:
+        if enclosing_dir and (os.path.exists(enclosing_dir) == False):
             os.makedirs(enclosing_dir)
 
         # Adding a new variable to the dataset below clears the coord attrs
-- 
2.43.0


From 3c7d45841340efb79d7f130e3b1c708763a0d355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:01:24 +0000
Subject: [PATCH 12/29] fix: record the creation time in UTC

The attribute and filename carry a UTC designator but held local time.
---
 glmtools/io/imagery.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glmtools/io/imagery.py b/glmtools/io/imagery.py
index 6c9da68..7636187 100644
--- a/glmtools/io/imagery.py
+++ b/glmtools/io/imagery.py
@@ -253,7 +253,7 @@ def get_glm_global_attrs(start, end, platform, slot, instrument, scene_id,
 
     Returns: meta, a dictionary of metadata attributes.
     """
-    created = datetime.now()
+    created = datetime.utcnow()
     modes = {'ABI Mode 3':'M3'}
 
     # For use in the dataset name / filename
-- 
2.43.0


From 71676da138e044b0f12900916d8e529870079aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:01:24 +0000
Subject: [PATCH 13/29] fix: check 2D coordinate shapes against the coordinates
 given

xy_to_2D_lonlat compared against undefined names.
---
 glmtools/io/imagery.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/glmtools/io/imagery.py b/glmtools/io/imagery.py
index 7636187..c30a286 100644
--- a/glmtools/io/imagery.py
+++ b/glmtools/io/imagery.py
@@ -407,8 +407,8 @@ def xy_to_2D_lonlat(gridder, x_coord, y_coord):
 
     x_all, y_all = (a.T for a in np.meshgrid(x_coord, y_coord))
     assert x_all.shape == y_all.shape
-    assert x_all.shape[0] == nx
-    assert x_all.shape[1] == ny
+    assert x_all.shape[0] == len(x_coord)
+    assert x_all.shape[1] == len(y_coord)
     z_all = np.zeros_like(x_all)
 
     lons, lats, alts = x,y,z = geoProj.fromECEF(
-- 
2.43.0


From 09ae33766254565548a366b6a4ab67b4db22bee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:01:24 +0000
Subject: [PATCH 14/29] fix: set coordinates on converted LCFA data

set_coords no longer accepts inplace, so every conversion raised TypeError.
---
 glmtools/io/convert_lcfa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glmtools/io/convert_lcfa.py b/glmtools/io/convert_lcfa.py
index 4fb4ae5..663ec63 100644
--- a/glmtools/io/convert_lcfa.py
+++ b/glmtools/io/convert_lcfa.py
@@ -149,7 +149,7 @@ def merge_dataframes_to_xarray(flashes, groups, events):
     flx = flashes.to_xarray()
     grx = groups.to_xarray()
     egf = evx.merge(grx).merge(flx)
-    egf.set_coords(nc_coords, inplace=True)
+    egf = egf.set_coords(nc_coords)
     return egf
 
 def main(infile, outfile):
-- 
2.43.0


From a8cc54fab0561a0cd922403cfa1b51a0d6b76e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:01:24 +0000
Subject: [PATCH 15/29] fix: stack event and flash chunks from a list

np.hstack does not accept a generator.
---
 glmtools/io/mimic_lma.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/glmtools/io/mimic_lma.py b/glmtools/io/mimic_lma.py
index f4bd3d5..d0b2a28 100644
--- a/glmtools/io/mimic_lma.py
+++ b/glmtools/io/mimic_lma.py
@@ -1049,8 +1049,8 @@ class GLMncCollection(LMAh5Collection):
                                 lon_range=self.lon_range,
                                 lat_range=self.lat_range,
                                 clip_events=False)
-        ev_chunks = (d['flash'][0] for d in fake_lma)
-        fl_chunks = (d['flash'][1] for d in fake_lma)
+        ev_chunks = [d['flash'][0] for d in fake_lma]
+        fl_chunks = [d['flash'][1] for d in fake_lma]
         events, flashes = np.hstack(ev_chunks), np.hstack(fl_chunks)
         log.info('data from {0}'.format(fname))
         return events, flashes
-- 
2.43.0


From 95525b6f14f7ee39437704a3e2473a7fa1c2ed53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:01:24 +0000
Subject: [PATCH 16/29] fix: pass the base date on to the flash time series

The base_date argument was accepted and ignored.
---
 glmtools/io/mimic_lma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glmtools/io/mimic_lma.py b/glmtools/io/mimic_lma.py
index d0b2a28..935cc7d 100644
--- a/glmtools/io/mimic_lma.py
+++ b/glmtools/io/mimic_lma.py
@@ -1060,7 +1060,7 @@ class TimeSeriesGLMFlashSubset(TimeSeriesGenericFlashSubset):
                     min_events=None, min_groups=None,
                     lon_range=None, lat_range=None):
         super(TimeSeriesGLMFlashSubset, self).__init__(t_start, t_end, dt,
-                                                    base_date=None)
+                                                    base_date=base_date)
         self.lma = GLMncCollection(glm_filenames, base_date=self.base_date,
                                    min_points=min_events, min_groups=min_groups,
                                    lat_range=lat_range, lon_range=lon_range)
-- 
2.43.0


From 1cc1a73a8c64a3a1e2c3c47df52c9104f4e7379c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:01:24 +0000
Subject: [PATCH 17/29] fix: remove an unused date that used an undefined name

read_flash_chunk raised NameError for every fixed grid chunk.
---
 glmtools/io/mimic_lma.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/glmtools/io/mimic_lma.py b/glmtools/io/mimic_lma.py
index 935cc7d..6d882d4 100644
--- a/glmtools/io/mimic_lma.py
+++ b/glmtools/io/mimic_lma.py
@@ -391,10 +391,6 @@ def read_flash_chunk(flash_data, glm=None, target=None, base_date=None, nadir_lo
         # unioning by a little bit to avoid the above problem.
 
         if fixed_grid:
-            pt = flash_data.product_time.dt
-            date = datetime(pt.year, pt.month, pt.day,
-                            pt.hour, pt.minute, pt.second)
-
             x_lut, y_lut, corner_lut = load_pixel_corner_lookup(corner_pickle)
             # Convert from microradians to radians
             x_lut = x_lut * 1.0e-6
-- 
2.43.0


From bd0a1b96fda3d64b11c636b1c89798dee83b6539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:01:24 +0000
Subject: [PATCH 18/29] fix: initialize mesh columns of unsplit event tables

The mesh fraction and indices held uninitialized memory when events are not split.
---
 glmtools/io/mimic_lma.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/glmtools/io/mimic_lma.py b/glmtools/io/mimic_lma.py
index 6d882d4..fd96422 100644
--- a/glmtools/io/mimic_lma.py
+++ b/glmtools/io/mimic_lma.py
@@ -622,7 +622,7 @@ def _fake_lma_from_glm_flashes(flash_data, basedate,
     if split_events is not None:
         event_np = np.empty_like(split_flashes.split_flash_lon.data, dtype=event_dtype)
     else:
-        event_np = np.empty_like(flash_data.event_id.data, dtype=event_dtype)
+        event_np = np.zeros_like(flash_data.event_id.data, dtype=event_dtype)
 
     if flash_np.shape[0] == 0:
         # no data, nothing to do
@@ -687,7 +687,7 @@ def _fake_lma_from_glm_groups(flash_data, basedate,
     if split_events is not None:
         event_np = np.empty_like(split_groups.split_group_lon.data, dtype=event_dtype)
     else:
-        event_np = np.empty_like(flash_data.event_id.data, dtype=event_dtype)
+        event_np = np.zeros_like(flash_data.event_id.data, dtype=event_dtype)
 
     if flash_np.shape[0] == 0:
         # no data, nothing to do
@@ -753,7 +753,7 @@ def _fake_lma_from_glm_events(flash_data, basedate,
     if split_events is not None:
         event_np = np.empty_like(split_events.split_event_lon.data, dtype=event_dtype)
     else:
-        event_np = np.empty_like(flash_data.event_id.data, dtype=event_dtype)
+        event_np = np.zeros_like(flash_data.event_id.data, dtype=event_dtype)
 
     if flash_np.shape[0] == 0:
         # no data, nothing to do
-- 
2.43.0


From a61d759beeb4afc61528b1a0a2270e26e94d0a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:01:24 +0000
Subject: [PATCH 19/29] fix: slice events against every cell they cover

The nearest-cell lookup reaches only two cells from the event center, so large events
on a fine grid lost most of their area.
---
 glmtools/io/mimic_lma.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/glmtools/io/mimic_lma.py b/glmtools/io/mimic_lma.py
index fd96422..db64ac8 100644
--- a/glmtools/io/mimic_lma.py
+++ b/glmtools/io/mimic_lma.py
@@ -187,7 +187,7 @@ def fast_fixed_grid_read_chunk(flash_data, target=None, base_date=None, nadir_lo
     slicer = QuadMeshPolySlicer(mesh)
     # --- Split up the events ---
     log.info("Starting to split events")
-    chopped_polys, poly_areas = slicer.slice(event_polys)
+    chopped_polys, poly_areas = slicer.slice(event_polys, bbox=True)
     log.info("Sliced all events")
     split_event_polys, split_event_properties = split_event_data(
         chopped_polys, poly_areas, slicer, event_ids=event_ids)
@@ -414,7 +414,7 @@ def read_flash_chunk(flash_data, glm=None, target=None, base_date=None, nadir_lo
         slicer = QuadMeshPolySlicer(mesh)
         # --- Split up the events ---
         log.info("Starting to split events")
-        chopped_polys, poly_areas = slicer.slice(event_polys)
+        chopped_polys, poly_areas = slicer.slice(event_polys, bbox=True)
         log.info("Sliced all events")
         split_event_polys, split_event_properties = split_event_data(chopped_polys, poly_areas, slicer, event_ids=event_ids)
         if fixed_grid:
-- 
2.43.0


From 63ae94304e80fb625016bc1d63abaf2642659eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:01:24 +0000
Subject: [PATCH 20/29] fix: accept an explicit bounding box when slicing
 polygons

A flag was only bound when bbox was True.
---
 glmtools/grid/clipping.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/glmtools/grid/clipping.py b/glmtools/grid/clipping.py
index 41c298c..440eddf 100644
--- a/glmtools/grid/clipping.py
+++ b/glmtools/grid/clipping.py
@@ -562,7 +562,8 @@ class QuadMeshPolySlicer(object):
         patch_coll.set_array(np.fromiter((0 for p in polys), dtype=float))
         ax1.add_collection(patch_coll)
         """
-        if bbox == True:
+        recalc_bbox = False
+        if bbox is True:
             recalc_bbox = True
             # else use the bbox that is specified exactly
 
-- 
2.43.0


From 2228820145b561229f9935f5f1e8e147464f2c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:01:24 +0000
Subject: [PATCH 21/29] fix: find all mesh cells in a bounding box that crosses
 the mesh edge

The out-of-range end of the box was discarded, so only cells near the other end were
found.
---
 glmtools/grid/clipping.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/glmtools/grid/clipping.py b/glmtools/grid/clipping.py
index 440eddf..fad7fcc 100644
--- a/glmtools/grid/clipping.py
+++ b/glmtools/grid/clipping.py
@@ -328,13 +328,14 @@ class QuadMeshSubset(object):
         # print(valid) -> [False, False,  True,  True,  True, False]
         idxx = np.digitize(xlim, self.X_edge1d, right=True) - 1
         idxy = np.digitize(ylim, self.Y_edge1d, right=True) - 1
-        validx = (idxx >= 0) & (idxx < self.N_X_ctr)
-        validy = (idxy >= 0) & (idxy < self.N_Y_ctr)
-        idxx = idxx[validx]
-        idxy = idxy[validy]
+        # The bbox may extend past the mesh, so use the part that overlaps it.
+        overlaps = ((idxx.max() >= 0) & (idxx.min() < self.N_X_ctr) &
+                    (idxy.max() >= 0) & (idxy.min() < self.N_Y_ctr))
+        idxx = np.clip(idxx, 0, self.N_X_ctr - 1)
+        idxy = np.clip(idxy, 0, self.N_Y_ctr - 1)
         # print('indices x', idxx, self.X_edge1d.min(), self.X_edge1d.max())
         # print('indices y', idxy, self.Y_edge1d.min(), self.Y_edge1d.max())
-        if (len(idxx) > 0) & (len(idxy) > 0):
+        if overlaps:
             xi_min = max(idxx.min() - pad, 0)
             xi_max = min(idxx.max() + 1 + pad, self.N_X_ctr)
             yi_min = max(idxy.min() - pad, 0)
-- 
2.43.0


From d312a38cf2309210575e6ce6633d7cf90a516a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:01:24 +0000
Subject: [PATCH 22/29] fix: keep output options for every tile

The first tile removed the options from a dictionary shared by all tiles.
---
 glmtools/grid/make_grids.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/glmtools/grid/make_grids.py b/glmtools/grid/make_grids.py
index 1836557..2cd0355 100644
--- a/glmtools/grid/make_grids.py
+++ b/glmtools/grid/make_grids.py
@@ -600,8 +600,8 @@ class GLMlutGridder(GLMGridder):
                     output_writer_3d = None,
                     output_filename_prefix = None, output_kwargs={}):
 
-        pad = output_kwargs.pop('pad', None)
-        scale_and_offset = output_kwargs.pop('scale_and_offset', True)
+        pad = output_kwargs.get('pad', None)
+        scale_and_offset = output_kwargs.get('scale_and_offset', True)
 
         from glmtools.io.imagery import write_goes_imagery
         all_outfiles = write_goes_imagery(self, outpath=outpath, pad=pad,
-- 
2.43.0


From 47055373e164c8d78386c703e37b4cf90bb7607d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:01:24 +0000
Subject: [PATCH 23/29] fix: infer the ellipsoid when no revision is given

Gridding without ellipse_rev raised KeyError.
---
 glmtools/grid/make_grids.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glmtools/grid/make_grids.py b/glmtools/grid/make_grids.py
index 2cd0355..d8510ad 100644
--- a/glmtools/grid/make_grids.py
+++ b/glmtools/grid/make_grids.py
@@ -862,7 +862,7 @@ def proc_each_grid(subgrid, start_time=None, end_time=None, GLM_filenames=None):
     """
 
     subgridij, kwargsij, process_flash_kwargs_ij, out_kwargs_ij, pads = subgrid
-    ellipse_rev = process_flash_kwargs_ij.pop('ellipse_rev')
+    ellipse_rev = process_flash_kwargs_ij.pop('ellipse_rev', -1)
 
     # Eventually, we want to trim off n_x/y_pad from each side of the grid
     # n_x_pad, n_y_pad, x_pad, y_pad = pads
-- 
2.43.0


From 9cab4da7321ab8d226312ccf148bceca9cb07321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:01:24 +0000
Subject: [PATCH 24/29] fix: respect clip_events and fixed_grid when they are
 False

Only the presence of the option was tested.
---
 glmtools/grid/make_grids.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/glmtools/grid/make_grids.py b/glmtools/grid/make_grids.py
index d8510ad..f742dfe 100644
--- a/glmtools/grid/make_grids.py
+++ b/glmtools/grid/make_grids.py
@@ -802,7 +802,7 @@ def grid_GLM_flashes(GLM_filenames, start_time, end_time, **kwargs):
         if prock in kwargs:
             process_flash_kwargs[prock] = kwargs.pop(prock)
     # need to also pass these kwargs through to the gridder for grid config.
-    if 'clip_events' in process_flash_kwargs:
+    if process_flash_kwargs.get('clip_events', False):
         kwargs['event_grid_area_fraction_key'] = 'mesh_frac'
 
     out_kwargs = {}
@@ -816,7 +816,7 @@ def grid_GLM_flashes(GLM_filenames, start_time, end_time, **kwargs):
         process_flash_kwargs['lon_bnd'] = kwargs['x_bnd']
         process_flash_kwargs['lat_bnd'] = kwargs['y_bnd']
         subgrids = [((0, 0), kwargs, process_flash_kwargs, out_kwargs, pads)]
-    elif 'fixed_grid' in process_flash_kwargs:
+    elif process_flash_kwargs.get('fixed_grid', False):
         subgrids = subdivided_fixed_grid(kwargs, process_flash_kwargs,
                                          out_kwargs, s=subdivide_grid)
     else:
@@ -871,12 +871,12 @@ def proc_each_grid(subgrid, start_time=None, end_time=None, GLM_filenames=None):
 
     # These should all be independent at this point and can parallelize
     log.info(('gridder kwargs for subgrid {0} are'.format(subgridij), kwargsij))
-    if 'clip_events' in process_flash_kwargs_ij:
+    if process_flash_kwargs_ij.get('clip_events', False):
         gridder = GLMlutGridder(start_time, end_time, **kwargsij)
     else:
         gridder = GLMGridder(start_time, end_time, **kwargsij)
 
-    if 'clip_events' in process_flash_kwargs_ij:
+    if process_flash_kwargs_ij.get('clip_events', False):
         xedge,yedge=np.meshgrid(gridder.xedge,gridder.yedge)
         mesh = QuadMeshSubset(xedge, yedge, n_neighbors=16*10, regular=True)
         # import pickle
-- 
2.43.0


From df00c5f7efcf9f658125548364e8506d76bdb184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:01:56 +0000
Subject: [PATCH 25/29] fix: build an empty event lookup table when there are
 no events

Grouping an empty dimension raised ValueError.
---
 glmtools/io/glm.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/glmtools/io/glm.py b/glmtools/io/glm.py
index 1d1dd32..b68a67a 100644
--- a/glmtools/io/glm.py
+++ b/glmtools/io/glm.py
@@ -5,7 +5,7 @@ import numpy as np
 import xarray as xr
 import pandas as pd
 
-from glmtools.io.traversal import OneToManyTraversal
+from glmtools.io.traversal import OneToManyTraversal, NoGroups
 from glmtools.io.lightning_ellipse import ltg_ellps_lon_lat_to_fixed_grid
 from glmtools.io.lightning_ellipse import ltg_ellpse_rev
 
@@ -633,9 +633,13 @@ def get_lutevents(dataset, scale_factor=28e-6, event_dim='number_of_events',
 
     xy_id = discretize_2d_location(event_x, event_y, scale_factor, x_range, y_range)
     dataset['event_parent_lutevent_id'] = xr.DataArray(xy_id, dims=[event_dim,])
-    eventlut_groups = dataset.groupby('event_parent_lutevent_id')
-    flash_id_groupby = dataset.groupby('flash_id')
-    group_id_groupby = dataset.groupby('group_id')
+    if xy_id.shape[0] == 0:
+        # xarray's groupby raises a ValueError on empty DataArrays
+        eventlut_groups = flash_id_groupby = group_id_groupby = NoGroups()
+    else:
+        eventlut_groups = dataset.groupby('event_parent_lutevent_id')
+        flash_id_groupby = dataset.groupby('flash_id')
+        group_id_groupby = dataset.groupby('group_id')
     n_lutevents = len(eventlut_groups.groups)
 
     # Create a new dimension for the reduced set of events, with their
-- 
2.43.0


From 55efcadc22ffb3891db35df02a48b0a623304af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:12:08 +0000
Subject: [PATCH 26/29] fix: set up the base gridder without a minimum flash
 area grid

---
 glmtools/grid/make_grids.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/glmtools/grid/make_grids.py b/glmtools/grid/make_grids.py
index f742dfe..610ec85 100644
--- a/glmtools/grid/make_grids.py
+++ b/glmtools/grid/make_grids.py
@@ -235,8 +235,10 @@ class GLMGridder(FlashGridder):
 
         flash_outgrids, flash_framer = self.flash_pipeline_setup()
         (init_density_grid, extent_density_grid, footprint_grid,
-            min_flash_area_grid, # flashsize_std_grid
-            ) = flash_outgrids
+            # flashsize_std_grid
+            ) = flash_outgrids[:3]
+        # Only some gridders accumulate the minimum flash area.
+        min_flash_area_grids = tuple(flash_outgrids[3:])
 
         group_outgrids, group_framer = self.group_pipeline_setup()
         (group_centroid_density_grid, group_extent_density_grid,
@@ -259,8 +261,7 @@ class GLMGridder(FlashGridder):
             group_centroid_density_grid,
             group_footprint_grid,
             # groupsize_std_grid
-            min_flash_area_grid,
-            )
+            ) + min_flash_area_grids
         self.outgrids_3d = None
 
         all_framers = {'flash': flash_framer,
-- 
2.43.0


From 0f7ec2fead40c255d6e4b88ba03e31ba9a185918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:44:50 +0000
Subject: [PATCH 27/29] fix: keep tile padding out of the caller's output
 options

---
 glmtools/grid/make_grids.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/glmtools/grid/make_grids.py b/glmtools/grid/make_grids.py
index 610ec85..cf6987f 100644
--- a/glmtools/grid/make_grids.py
+++ b/glmtools/grid/make_grids.py
@@ -915,8 +915,9 @@ def proc_each_grid(subgrid, start_time=None, end_time=None, GLM_filenames=None):
 
     preprocess_out = out_kwargs_ij.pop('preprocess_out', None)
     if preprocess_out: # in out_kwargs_ij:
-        if 'output_kwargs' not in out_kwargs_ij:
-            out_kwargs_ij['output_kwargs'] = {}
+        # The options may be shared with the caller, so add to a copy.
+        out_kwargs_ij['output_kwargs'] = dict(
+            out_kwargs_ij.get('output_kwargs', {}))
         # Used by GLMlutGridder.write_grids, but not the others.
         out_kwargs_ij['output_kwargs']['pad'] = preprocess_out.get_pad_slices()
 
-- 
2.43.0


From 43b69b87a76020e985e55619bb4e9c8445d02d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:45:37 +0000
Subject: [PATCH 28/29] fix: average and pack a copy of the grids when writing
 imagery

---
 glmtools/io/imagery.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/glmtools/io/imagery.py b/glmtools/io/imagery.py
index c30a286..c5c4cca 100644
--- a/glmtools/io/imagery.py
+++ b/glmtools/io/imagery.py
@@ -531,7 +531,8 @@ def write_goes_imagery(gridder, outpath='./{dataset_name}', pad=None, scale_and_
         xenc, yenc = dataset.x.encoding, dataset.y.encoding
 
         for i, (grid_allt, field_name, description, units, outformat) in enumerate(file_iter):
-            grid = grid_allt[x_slice,y_slice,ti]
+            # Averaging and packing change values, so leave the totals alone.
+            grid = grid_allt[x_slice,y_slice,ti].copy()
             if i in self.divide_grids:
                 denom = self.outgrids[self.divide_grids[i]][x_slice,y_slice,ti]
                 zeros = (denom == 0) | (grid == 0)
-- 
2.43.0


From 7b1c3a246e0a31d770c9a00fcff613262704218e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:58:33 +0000
Subject: [PATCH 29/29] fix: load files that have flashes and groups but no
 events

---
 glmtools/io/glm.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/glmtools/io/glm.py b/glmtools/io/glm.py
index b68a67a..d1a75eb 100644
--- a/glmtools/io/glm.py
+++ b/glmtools/io/glm.py
@@ -279,14 +279,13 @@ class GLMDataset(OneToManyTraversal):
         event_parent_flash_id = xr.DataArray(flash_ids, dims=[self.ev_dim,])
         self.dataset['event_parent_flash_id'] = event_parent_flash_id
 
+        all_counts = self.count_children('flash_id', 'event_id')
+        flash_child_count = all_counts[0]
+        group_child_count = all_counts[1]
         if no_data:
-            flash_child_count = []
-            group_child_count = []
-            count = []
+            # There may be flashes even though there are no events.
+            count = [0]*self.dataset.dims[self.fl_dim]
         else:
-            all_counts = self.count_children('flash_id', 'event_id')
-            flash_child_count = all_counts[0]
-            group_child_count = all_counts[1]
             # we can use event_parent_flash_id to get the flash_child_event_count
             # need a new groupby on event_parent_flash_id
             # then count number of flash_ids that match in the groupby
-- 
2.43.0

