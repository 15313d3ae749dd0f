From 3fceb8f93a4cce9a79eaca27b7d6b239d8d42a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:48 +0000
Subject: [PATCH 001/142] fix: crs axis switching composes the from and to
 orderings in the right order

---
 resqpy/crs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/crs.py b/resqpy/crs.py
index d8366e4..322633a 100644
--- a/resqpy/crs.py
+++ b/resqpy/crs.py
@@ -537,13 +537,13 @@ class Crs(BaseResqpy):
 
 def switch_axes(from_order, to_order, x, y):
     """Return x, y pair converting from one axis order to another."""
-    matrix = np.matmul(axis_reordering[to_order].T, axis_reordering[from_order])
+    matrix = np.matmul(axis_reordering[from_order], axis_reordering[to_order].T)
     return tuple(np.matmul(np.array((x, y), dtype = float), matrix))
 
 
 def switch_axes_array(from_order, to_order, xyz_array):
     """Modify x & y values of array in situ, converting from one axis order to another."""
-    matrix = np.matmul(axis_reordering[to_order].T, axis_reordering[from_order])
+    matrix = np.matmul(axis_reordering[from_order], axis_reordering[to_order].T)
     assert xyz_array.shape[-1] in [2, 3]
     xy = np.matmul(xyz_array[..., :2], matrix)
     xyz_array[..., :2] = xy
-- 
2.43.0


From 6e2e2ca16004a0097b402df64fce1e467e3c0c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:48 +0000
Subject: [PATCH 002/142] fix: crs equivalence takes rotation units into
 account

---
 resqpy/crs.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/resqpy/crs.py b/resqpy/crs.py
index 322633a..608d90d 100644
--- a/resqpy/crs.py
+++ b/resqpy/crs.py
@@ -317,9 +317,11 @@ class Crs(BaseResqpy):
         if (maths.isclose(self.x_offset, other_crs.x_offset, abs_tol = 1e-4) and
                 maths.isclose(self.y_offset, other_crs.y_offset, abs_tol = 1e-4) and
                 maths.isclose(self.z_offset, other_crs.z_offset, abs_tol = 1e-4) and
-                maths.isclose(self.rotation, other_crs.rotation, abs_tol = 1e-4)):
+                maths.isclose(wam.convert(self.rotation, self.rotation_units, 'dega', quantity = 'plane angle'),
+                              wam.convert(other_crs.rotation, other_crs.rotation_units, 'dega', quantity = 'plane angle'),
+                              abs_tol = 1e-4)):
             return True
-        # todo: handle and check rotation units; modularly equivalent rotations
+        # todo: modularly equivalent rotations
         return False
 
     def convert_to(self, other_crs: 'Crs', xyz: PointType) -> Tuple[float, float, float]:
-- 
2.43.0


From 4317e99775e03da56cd0cfcbf71873ebd102dc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:49 +0000
Subject: [PATCH 003/142] fix: closest timestamp considers the second timestamp
 when the query is after the first

---
 resqpy/time_series/_time_series.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/time_series/_time_series.py b/resqpy/time_series/_time_series.py
index e7cdb74..dacd61e 100644
--- a/resqpy/time_series/_time_series.py
+++ b/resqpy/time_series/_time_series.py
@@ -138,7 +138,7 @@ class TimeSeries(ats.AnyTimeSeries):
         if not self.timestamps:
             return None
         before = self.index_for_timestamp_not_later_than(timestamp)
-        if not before:
+        if before is None:
             return 0
         if before == len(self.timestamps) - 1 or self.timestamps[before] == timestamp:
             return before
-- 
2.43.0


From 73e357d9df8b2fcdc84439a5855525c7ff014afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:49 +0000
Subject: [PATCH 004/142] fix: cleaned and simplified geologic timestamps use
 the value given

---
 resqpy/time_series/_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/time_series/_functions.py b/resqpy/time_series/_functions.py
index a5b779e..182dbff 100644
--- a/resqpy/time_series/_functions.py
+++ b/resqpy/time_series/_functions.py
@@ -35,7 +35,7 @@ def simplified_timestamp(timestamp):
     if timestamp is None:
         return None
     if isinstance(timestamp, int):
-        return geologic_time_str(int)
+        return geologic_time_str(timestamp)
     timestamp = cleaned_timestamp(timestamp)
     if len(timestamp) > 10:
         timestamp = timestamp[:10] + ' ' + timestamp[11:]
@@ -48,7 +48,7 @@ def cleaned_timestamp(timestamp):
     if timestamp is None:
         return None
     if isinstance(timestamp, int):
-        return geologic_time_str(int)
+        return geologic_time_str(timestamp)
     timestamp = str(timestamp)
     rqts.check_timestamp(timestamp)
     if len(timestamp) < 19 or timestamp[11:19] == '00:00:00':
-- 
2.43.0


From d2f719ac653afa9c6cd8e495a6a53073de6950bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:49 +0000
Subject: [PATCH 005/142] fix: merging of geologic time series

---
 resqpy/time_series/_functions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/resqpy/time_series/_functions.py b/resqpy/time_series/_functions.py
index 182dbff..5807248 100644
--- a/resqpy/time_series/_functions.py
+++ b/resqpy/time_series/_functions.py
@@ -109,7 +109,10 @@ def merge_timeseries_from_uuid(model, timeseries_uuid_iter):
 
         timeserieslist.append(singlets)
         # alltimestamps.update( set(singlets.timestamps) )
-        alltimestamps.update(set(singlets.datetimes()))
+        if timeframe == 'human':
+            alltimestamps.update(set(singlets.datetimes()))
+        else:
+            alltimestamps.update(set(singlets.timestamps))
 
     sortedtimestamps = sorted(list(alltimestamps), reverse = reverse)
 
-- 
2.43.0


From 883416a02fbcd74534b9f73a37d7da0419879b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:30 +0000
Subject: [PATCH 006/142] fix: human time series compare timestamps as times
 rather than as text

---
 resqpy/time_series/_any_time_series.py |  2 +-
 resqpy/time_series/_functions.py       | 12 ++++++++++++
 resqpy/time_series/_time_series.py     |  7 ++++---
 3 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/resqpy/time_series/_any_time_series.py b/resqpy/time_series/_any_time_series.py
index df1d2af..d8bd082 100644
--- a/resqpy/time_series/_any_time_series.py
+++ b/resqpy/time_series/_any_time_series.py
@@ -42,7 +42,7 @@ class AnyTimeSeries(BaseResqpy):
             else:
                 assert self.timeframe == 'human'
                 self.timestamps.append(dt_text)  # todo: trim and check timestamp
-            self.timestamps.sort()
+        self.timestamps.sort(key = None if self.timeframe == 'geologic' else tsf.timestamp_as_datetime)
 
     def is_equivalent(self, other_ts):
         """Performs partial equivalence check on two time series (derived class methods finish the work)."""
diff --git a/resqpy/time_series/_functions.py b/resqpy/time_series/_functions.py
index 5807248..fdc2aac 100644
--- a/resqpy/time_series/_functions.py
+++ b/resqpy/time_series/_functions.py
@@ -6,6 +6,7 @@
 #  not make such a distinction explicitly; the code here uses presence of YearOffset xml data to imply a time
 # series on a geological timeframe
 
+import datetime as dt
 import logging
 
 log = logging.getLogger(__name__)
@@ -56,6 +57,17 @@ def cleaned_timestamp(timestamp):
     return timestamp[:10] + 'T' + timestamp[11:19] + 'Z'
 
 
+def timestamp_as_datetime(timestamp):
+    """Returns the naive datetime for a timestamp, for comparison of timestamps which might differ in format."""
+
+    if timestamp.endswith('Z'):
+        timestamp = timestamp[:-1]
+    date_obj = dt.datetime.fromisoformat(timestamp)
+    if date_obj.tzinfo is not None:
+        date_obj = date_obj.astimezone(dt.timezone.utc).replace(tzinfo = None)
+    return date_obj
+
+
 def time_series_from_list(timestamp_list, parent_model = None, title = None):
     """Create a TimeSeries object from a list of timestamps (model and node set to None).
 
diff --git a/resqpy/time_series/_time_series.py b/resqpy/time_series/_time_series.py
index dacd61e..c004b80 100644
--- a/resqpy/time_series/_time_series.py
+++ b/resqpy/time_series/_time_series.py
@@ -9,6 +9,7 @@ import warnings
 
 import resqpy.time_series
 import resqpy.time_series._any_time_series as ats
+import resqpy.time_series._functions as tsf
 import resqpy.time_series._time_duration as td
 
 
@@ -110,7 +111,7 @@ class TimeSeries(ats.AnyTimeSeries):
         """
         check_timestamp(timestamp)
         index = len(self.timestamps) - 1
-        while (index >= 0) and (self.timestamps[index] > timestamp):
+        while (index >= 0) and (tsf.timestamp_as_datetime(self.timestamps[index]) > tsf.timestamp_as_datetime(timestamp)):
             index -= 1
         if index < 0:
             return None
@@ -123,7 +124,7 @@ class TimeSeries(ats.AnyTimeSeries):
         """
         check_timestamp(timestamp)
         index = 0
-        while (index < len(self.timestamps)) and (self.timestamps[index] < timestamp):
+        while (index < len(self.timestamps)) and (tsf.timestamp_as_datetime(self.timestamps[index]) < tsf.timestamp_as_datetime(timestamp)):
             index += 1
         if index >= len(self.timestamps):
             return None
@@ -209,7 +210,7 @@ class TimeSeries(ats.AnyTimeSeries):
         else:
             last = self.last_timestamp()
             if last is not None:
-                assert (new_timestamp > self.last_timestamp())
+                assert (tsf.timestamp_as_datetime(new_timestamp) > tsf.timestamp_as_datetime(last))
             self.timestamps.append(new_timestamp)
 
     def extend_by_duration(self, duration):
-- 
2.43.0


From 37cef307a5d2e85ff2e89b20bbcea6893b62fdcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:10 +0000
Subject: [PATCH 007/142] fix: overlapping_boxes trim box leaves a valid box
 when the overlap is interior

---
 resqpy/olio/box_utilities.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/resqpy/olio/box_utilities.py b/resqpy/olio/box_utilities.py
index c17bf86..ba06e0e 100644
--- a/resqpy/olio/box_utilities.py
+++ b/resqpy/olio/box_utilities.py
@@ -321,6 +321,12 @@ def overlapping_boxes(established_box, new_box, trim_box):
     for dir in range(3):
         overlap_box[0, dir] = max(established_box[0, dir], new_box[0, dir])
         overlap_box[1, dir] = min(established_box[1, dir], new_box[1, dir])
+        if overlap_box[0, dir] > new_box[0, dir] and overlap_box[1, dir] < new_box[1, dir]:
+            # overlap is away from both faces of new_box, so extend to nearer face to leave a valid box after trimming
+            if overlap_box[1, dir] - new_box[0, dir] <= new_box[1, dir] - overlap_box[0, dir]:
+                overlap_box[0, dir] = new_box[0, dir]
+            else:
+                overlap_box[1, dir] = new_box[1, dir]
         trim_cost[dir] = (overlap_box[1, dir] - overlap_box[0, dir] + 1) * new_box_area[dir]
         if trim_cost[dir] < min_trim_cost:
             min_trim_cost = trim_cost[dir]
-- 
2.43.0


From fa698d623fb7b50eb996a49698c49213b21e469a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:10 +0000
Subject: [PATCH 008/142] fix: error message for wrong number of fine coarse
 proportions

---
 resqpy/olio/fine_coarse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/olio/fine_coarse.py b/resqpy/olio/fine_coarse.py
index d0301e2..e6d6409 100644
--- a/resqpy/olio/fine_coarse.py
+++ b/resqpy/olio/fine_coarse.py
@@ -287,7 +287,7 @@ class FineCoarse:
             if isinstance(vector, list) or isinstance(vector, tuple):
                 vector = np.array(vector)
             assert isinstance(vector, np.ndarray) and vector.ndim == 1
-            assert len(vector) == count, 'wrong number of proportions for axis: ' + str(axis) + ' slice(0): ' + c0
+            assert len(vector) == count, 'wrong number of proportions for axis: ' + str(axis) + ' slice(0): ' + str(c0)
             assert not np.any(np.isnan(vector))
             assert np.all(vector > 0)
             total = float(np.sum(vector))
-- 
2.43.0


From 2a29e7e9901a089266257ab4ff0322828d1deb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:08 +0000
Subject: [PATCH 009/142] fix: do not compare hdf5 path with a file which does
 not exist yet

---
 resqpy/model/_hdf5.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resqpy/model/_hdf5.py b/resqpy/model/_hdf5.py
index 82e2ce0..a1afd2c 100644
--- a/resqpy/model/_hdf5.py
+++ b/resqpy/model/_hdf5.py
@@ -145,7 +145,8 @@ def _h5_access(model, uuid = None, mode = 'r', override = 'default', file_path =
         file_name = _h5_file_name(model, uuid = uuid, override = override, file_must_exist = (mode == 'r'))
     if mode == 'a' and not os.path.exists(file_name):
         mode = 'w'
-    if model.h5_currently_open_root is not None and os.path.samefile(model.h5_currently_open_path, file_name):
+    if (model.h5_currently_open_root is not None and os.path.exists(file_name) and
+            os.path.samefile(model.h5_currently_open_path, file_name)):
         return model.h5_currently_open_root
     if model.h5_currently_open_root is not None:
         _h5_release(model)
-- 
2.43.0


From 51fbc658c7fe43dcc6da046ceb3bbb73cd78eabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:08 +0000
Subject: [PATCH 010/142] fix: only unpack hdf5 bool data when leading
 dimensions match

---
 resqpy/model/_hdf5.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resqpy/model/_hdf5.py b/resqpy/model/_hdf5.py
index a1afd2c..1828e2c 100644
--- a/resqpy/model/_hdf5.py
+++ b/resqpy/model/_hdf5.py
@@ -235,7 +235,8 @@ def _h5_array_element(model,
         object.__dict__[array_attribute] = np.zeros(required_shape, dtype = dtype)
         if shape_tuple == required_shape:
             object.__dict__[array_attribute][:] = h5_root[h5_key_pair[1]]
-        elif (len(shape_tuple) == len(required_shape) and ('bool' in str_dtype or 'uint8' in str_dtype) and
+        elif (len(shape_tuple) == len(required_shape) and shape_tuple[:-1] == required_shape[:-1] and
+              ('bool' in str_dtype or 'uint8' in str_dtype) and
               8 * (shape_tuple[-1] - 1) < required_shape[-1] <= 8 * shape_tuple[-1]):
             a = np.unpackbits(h5_root[h5_key_pair[1]], axis = -1).astype(bool)
             object.__dict__[array_attribute][:] = a[..., :required_shape[-1]]
-- 
2.43.0


From 6ae8798eadbdcd221991c9ae0007f116f1383470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:08 +0000
Subject: [PATCH 011/142] fix: name of hdf5 filename cache clearing function

---
 resqpy/model/_hdf5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/model/_hdf5.py b/resqpy/model/_hdf5.py
index 1828e2c..89d61b5 100644
--- a/resqpy/model/_hdf5.py
+++ b/resqpy/model/_hdf5.py
@@ -296,7 +296,7 @@ def _h5_overwrite_array(model, h5_key_pair, array):
     dset[...] = array
 
 
-def h5_clear_filename_cache(model):
+def _h5_clear_filename_cache(model):
     """Clears the cached filenames associated with all ext uuids."""
 
     _h5_release(model)
-- 
2.43.0


From 02252039cac7d9b2c327a227088f2fa312eddf8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:08 +0000
Subject: [PATCH 012/142] fix: default compression of none when registering
 hdf5 datasets

---
 resqpy/olio/write_hdf5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/olio/write_hdf5.py b/resqpy/olio/write_hdf5.py
index 50005b2..b09fe0e 100644
--- a/resqpy/olio/write_hdf5.py
+++ b/resqpy/olio/write_hdf5.py
@@ -121,7 +121,7 @@ class H5Register():
                 chunks = a.shape
         if compression is None:
             compression = self.default_compression
-        elif compression == 'none':
+        if compression == 'none':
             compression = None
         if compression is not None and chunks is None:
             chunks = True
-- 
2.43.0


From b12966edebf55541888934a2e74c3d2cd9b0fec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:31 +0000
Subject: [PATCH 013/142] fix: keep both ends of a line when all its vertices
 coincide

---
 resqpy/olio/simple_lines.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resqpy/olio/simple_lines.py b/resqpy/olio/simple_lines.py
index edb50ec..124fa68 100644
--- a/resqpy/olio/simple_lines.py
+++ b/resqpy/olio/simple_lines.py
@@ -121,6 +121,7 @@ def duplicate_vertices_removed(line, tolerance = 0.001):
             whittled[c_i] = line[i]
     if c_i == len(line) - 1:
         return line
+    c_i = max(c_i, 1)
     whittled[c_i] = line[-1]
     return whittled[:c_i + 1]
 
-- 
2.43.0


From 1ca15f8d7327ec8318a58ea06a3576a6ebb14416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:31 +0000
Subject: [PATCH 014/142] fix: rotation of downward vector to vertical, and
 area of collinear triangle

---
 resqpy/olio/vector_utilities.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/resqpy/olio/vector_utilities.py b/resqpy/olio/vector_utilities.py
index 1548e83..a296a88 100644
--- a/resqpy/olio/vector_utilities.py
+++ b/resqpy/olio/vector_utilities.py
@@ -449,6 +449,8 @@ def rotation_matrix_3d_vector(v):
        the returned matrix will map a positive z axis vector onto v
     """
     v = v / np.linalg.norm(v)
+    if v[2] <= -1.0:  # half turn about x axis, as general case is indeterminate
+        return np.diag(np.array([1.0, -1.0, -1.0]))
     kmat = np.array([[0, 0, -v[0]], [0, 0, -v[1]], [v[0], v[1], 0]])
     rotation_matrix = np.eye(3) + kmat + kmat.dot(kmat) * (1 / (1 + v[2]))
 
@@ -464,6 +466,8 @@ def rotation_matrix_3d_vector_njit(v):  # pragma: no cover
        the returned matrix will map a positive z axis vector onto v
     """
     v = v / np.linalg.norm(v)
+    if v[2] <= -1.0:  # half turn about x axis, as general case is indeterminate
+        return np.diag(np.array([1.0, -1.0, -1.0]))
     kmat = np.array([[0, 0, -v[0]], [0, 0, -v[1]], [v[0], v[1], 0]])
     rotation_matrix = np.eye(3) + kmat + kmat.dot(kmat) * (1 / (1 + v[2]))
 
@@ -1455,7 +1459,8 @@ def area_of_triangle(a, b, c):
     lb = naive_length(b - c)
     lc = naive_length(c - a)
     s = 0.5 * (la + lb + lc)
-    return maths.sqrt(s * (s - la) * (s - lb) * (s - lc))
+    # note: product can be marginally negative for collinear vertices, due to rounding
+    return maths.sqrt(max(0.0, s * (s - la) * (s - lb) * (s - lc)))
 
 
 def area_of_triangles(p, t, xy_projection = False):
@@ -1472,7 +1477,8 @@ def area_of_triangles(p, t, xy_projection = False):
         lb = naive_lengths(pt[:, 1, :] - pt[:, 2, :])
         lc = naive_lengths(pt[:, 2, :] - pt[:, 0, :])
     s = 0.5 * (la + lb + lc)
-    return np.sqrt(s * (s - la) * (s - lb) * (s - lc))
+    # note: product can be marginally negative for collinear vertices, due to rounding
+    return np.sqrt(np.maximum(0.0, s * (s - la) * (s - lb) * (s - lc)))
 
 
 def clockwise_sorted_indices(p, b):
-- 
2.43.0


From 66cceaf85d0560c2ffe26751bab900282e0bfc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:22 +0000
Subject: [PATCH 015/142] fix: allow resqpy.lines to be the first resqpy module
 imported

---
 resqpy/olio/triangulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/olio/triangulation.py b/resqpy/olio/triangulation.py
index df7b2b7..23a8262 100644
--- a/resqpy/olio/triangulation.py
+++ b/resqpy/olio/triangulation.py
@@ -303,7 +303,7 @@ def ccc(p1, p2, p3):
     return meet.line_line_intersect(m12[0], m12[1], o12[0], o12[1], m13[0], m13[1], o13[0], o13[1])
 
 
-def voronoi(p, t, b, aoi: rql.Polyline):
+def voronoi(p, t, b, aoi: "rql.Polyline"):
     """Returns dual Voronoi diagram for a Delauney triangulation.
 
     arguments:
-- 
2.43.0


From 34ec85361ae00134dd76e9d5a3f7423926ec44e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:02 +0000
Subject: [PATCH 016/142] fix: regular grid box and cell lookup take account of
 block origin

---
 resqpy/grid/_regular_grid.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/resqpy/grid/_regular_grid.py b/resqpy/grid/_regular_grid.py
index eac0b6c..3ae2375 100644
--- a/resqpy/grid/_regular_grid.py
+++ b/resqpy/grid/_regular_grid.py
@@ -672,6 +672,7 @@ class RegularGrid(grr_g.Grid):
                 grid_cp = grid_cp.reshape((8, 3))
                 grid.xyz_box_cached[0] = np.amin(grid_cp, axis = 0)
                 grid.xyz_box_cached[1] = np.amax(grid_cp, axis = 0)
+            grid.xyz_box_cached += np.array(grid.block_origin, dtype = float)
             grid.xyz_box_cached_thoroughly = True
         if local:
             return grid.xyz_box_cached
@@ -694,8 +695,8 @@ class RegularGrid(grr_g.Grid):
             y = a[0, 1]
         log.debug(f'find for local x: {x}; y: {y}')
         if self.is_aligned:
-            i0 = maths.floor(x / self.block_dxyz_dkji[2, 0])
-            j0 = maths.floor(y / self.block_dxyz_dkji[1, 1])
+            i0 = maths.floor((x - self.block_origin[0]) / self.block_dxyz_dkji[2, 0])
+            j0 = maths.floor((y - self.block_origin[1]) / self.block_dxyz_dkji[1, 1])
         else:
             # TODO
             raise NotImplementedError('finding cell for x,y in unaligned regular grid')
-- 
2.43.0


From 91223de04ba2f1a31d1d8cd16aa351626a3b2690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:02 +0000
Subject: [PATCH 017/142] fix: pixel maps include cells which are only partly
 within the pixel rectangle

---
 resqpy/grid/_pixel_maps.py     | 10 ++++++----
 resqpy/olio/point_inclusion.py |  6 ++++--
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/resqpy/grid/_pixel_maps.py b/resqpy/grid/_pixel_maps.py
index 73cc424..6367b54 100644
--- a/resqpy/grid/_pixel_maps.py
+++ b/resqpy/grid/_pixel_maps.py
@@ -93,11 +93,13 @@ def pixel_map_for_split_horizon_points(grid, horizon_points, origin, width, heig
                 continue
             poly_box[0] = np.min(poly_points[j, i], axis = 0) - half_d
             poly_box[1] = np.max(poly_points[j, i], axis = 0) + half_d
-            patch_p_origin[:] = (poly_box[0] - origin) / (dx, dy)
-            if patch_p_origin[0] < 0 or patch_p_origin[1] < 0:
-                continue
+            patch_p_origin[:] = np.floor((poly_box[0] - origin) / (dx, dy))
             patch_extent[:] = np.ceil((poly_box[1] - poly_box[0]) / (dx, dy))
-            if patch_p_origin[0] + patch_extent[0] > width or patch_p_origin[1] + patch_extent[1] > height:
+            # restrict patch to the part which lies within the pixel rectangle, if any
+            patch_p_end = np.minimum(patch_p_origin + patch_extent, (width, height))
+            patch_p_origin[:] = np.maximum(patch_p_origin, 0)
+            patch_extent[:] = patch_p_end - patch_p_origin
+            if np.any(patch_extent <= 0):
                 continue
             patch_origin = origin + d * patch_p_origin + half_d
             scan_mask = pip.scan(patch_origin, patch_extent[0], patch_extent[1], dx, dy, poly_points[j, i])
diff --git a/resqpy/olio/point_inclusion.py b/resqpy/olio/point_inclusion.py
index 11535de..420e9df 100644
--- a/resqpy/olio/point_inclusion.py
+++ b/resqpy/olio/point_inclusion.py
@@ -175,8 +175,10 @@ def scan(origin, ncol, nrow, dx, dy, poly):
             sx, ex = ix[1], ix[0]
         else:
             sx, ex = ix[0], ix[1]
-        scol = maths.ceil((sx - origin[0]) / dx)
-        ecol = int((ex - origin[0]) / dx)
+        scol = max(maths.ceil((sx - origin[0]) / dx), 0)
+        ecol = maths.floor((ex - origin[0]) / dx)
+        if ecol < scol:
+            continue
         inside[row, scol:ecol + 1] = True
 
     return inside
-- 
2.43.0


From 854761cf950599441a88becf27deed8d5290abce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:02 +0000
Subject: [PATCH 018/142] fix: cross section points of grids with k gaps or no
 splits

---
 resqpy/grid/_points_functions.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/resqpy/grid/_points_functions.py b/resqpy/grid/_points_functions.py
index 26ccc95..7dda036 100644
--- a/resqpy/grid/_points_functions.py
+++ b/resqpy/grid/_points_functions.py
@@ -373,13 +373,13 @@ def unsplit_points_ref(grid, cache_array = False, masked = False):
     """
 
     if hasattr(grid, 'array_unsplit_points'):
-        return grid.array_unsplit_points
-    points = grid.points_ref(masked = masked)
+        return ma.masked_invalid(grid.array_unsplit_points) if masked else grid.array_unsplit_points
+    points = grid.points_ref(masked = False)
     if not grid.has_split_coordinate_lines:
         if cache_array:
             grid.array_unsplit_points = points.copy()
-            return grid.array_unsplit_points
-        return points
+            points = grid.array_unsplit_points
+        return ma.masked_invalid(points) if masked else points
     # todo: finish version that copies primaries and only modifies split pillars?
     # njkp1 = (grid.nj + 1) * (grid.ni + 1)
     # merged_points = np.empty((grid.nk + 1, njkp1, 3))   # shaped somewhat like split points array
@@ -413,8 +413,7 @@ def unsplit_points_ref(grid, cache_array = False, masked = False):
     result[:, grid.nj, grid.ni, :] = points[:, grid.pillars_for_column[grid.nj - 1, grid.ni - 1, 1, 1], :]
     if cache_array:
         grid.array_unsplit_points = result
-        return grid.array_unsplit_points
-    return result
+    return ma.masked_invalid(result) if masked else result
 
 
 def horizon_points(grid, ref_k0 = 0, heal_faults = False, kp = 0):
@@ -531,6 +530,8 @@ def split_x_section_points(grid, axis, ref_slice0 = 0, plus_face = False, masked
     assert not grid.k_gaps, 'split_x_section_points() method is for grids without k gaps; use split_gap_x_section_points()'
 
     points = grid.points_ref(masked = masked)
+    if not grid.has_split_coordinate_lines:
+        points = points.reshape((grid.nk_plus_k_gaps + 1, (grid.nj + 1) * (grid.ni + 1), 3))
     cpm = grid.create_column_pillar_mapping()
 
     ij_p = 1 if plus_face else 0
@@ -565,7 +566,7 @@ def split_gap_x_section_points(grid, axis, ref_slice0 = 0, plus_face = False, ma
     if grid.has_split_coordinate_lines:
         points = grid.points_ref(masked = masked)
     else:
-        points = grid.points_ref(masked = masked).reshape((grid.nk_plus_k_gaps, (grid.nj + 1) * (grid.ni + 1), 3))
+        points = grid.points_ref(masked = masked).reshape((grid.nk_plus_k_gaps + 1, (grid.nj + 1) * (grid.ni + 1), 3))
     cpm = grid.create_column_pillar_mapping()
 
     ij_p = 1 if plus_face else 0
-- 
2.43.0


From 36544e6a50de68c4103e675dc1cc7c9a50f973e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:23 +0000
Subject: [PATCH 019/142] fix: split_column_faces includes faces in the last
 row and column of cells

---
 resqpy/grid/_face_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/grid/_face_functions.py b/resqpy/grid/_face_functions.py
index 8f7fc64..f854621 100644
--- a/resqpy/grid/_face_functions.py
+++ b/resqpy/grid/_face_functions.py
@@ -69,12 +69,12 @@ def split_column_faces(grid):
         if j_p > 0 and j_p < grid.nj:
             if i_p > 0 and grid.is_split_column_face(j_p, i_p - 1, 1, 0):
                 grid.array_j_column_face_split[j_p - 1, i_p - 1] = True
-            if i_p < grid.ni - 1 and grid.is_split_column_face(j_p, i_p, 1, 0):
+            if i_p < grid.ni and grid.is_split_column_face(j_p, i_p, 1, 0):
                 grid.array_j_column_face_split[j_p - 1, i_p] = True
         if i_p > 0 and i_p < grid.ni:
             if j_p > 0 and grid.is_split_column_face(j_p - 1, i_p, 2, 0):
                 grid.array_i_column_face_split[j_p - 1, i_p - 1] = True
-            if j_p < grid.nj - 1 and grid.is_split_column_face(j_p, i_p, 2, 0):
+            if j_p < grid.nj and grid.is_split_column_face(j_p, i_p, 2, 0):
                 grid.array_i_column_face_split[j_p, i_p - 1] = True
     return grid.array_j_column_face_split, grid.array_i_column_face_split
 
-- 
2.43.0


From ee39488dd4d5a1244609b2c6a31f7cb863403f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:23 +0000
Subject: [PATCH 020/142] fix: check_top_and_base_cell_edge_directions reports
 inconsistent edges

---
 resqpy/grid/_xyz.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resqpy/grid/_xyz.py b/resqpy/grid/_xyz.py
index ad05335..e702127 100644
--- a/resqpy/grid/_xyz.py
+++ b/resqpy/grid/_xyz.py
@@ -254,19 +254,19 @@ def check_top_and_base_cell_edge_directions(grid):
     # check direction of top edges against corresponding base edges, tolerate upto 90 degree difference
     dot_j = np.sum(top_j_edge_vectors * base_j_edge_vectors, axis = 2)
     dot_i = np.sum(top_i_edge_vectors * base_i_edge_vectors, axis = 2)
-    if not np.all(dot_j >= 0.0) and np.all(dot_i >= 0.0):
+    if not (np.all(dot_j >= 0.0) and np.all(dot_i >= 0.0)):
         log.warning('one or more columns of cell edges flip direction: this grid is probably unusable')
         good = False
     log.debug('checking relative direction of edges in neighbouring cells at top of grid (and base)')
     # check direction of similar edges on neighbouring cells, tolerate upto 90 degree difference
     dot_jp = np.sum(top_j_edge_vectors[1:, :, :] * top_j_edge_vectors[:-1, :, :], axis = 2)
     dot_ip = np.sum(top_i_edge_vectors[1:, :, :] * top_i_edge_vectors[:-1, :, :], axis = 2)
-    if not np.all(dot_jp >= 0.0) and np.all(dot_ip >= 0.0):
+    if not (np.all(dot_jp >= 0.0) and np.all(dot_ip >= 0.0)):
         log.warning('top cell edges for neighbouring cells flip direction somewhere: this grid is probably unusable')
         good = False
     dot_jp = np.sum(base_j_edge_vectors[1:, :, :] * base_j_edge_vectors[:-1, :, :], axis = 2)
     dot_ip = np.sum(base_i_edge_vectors[1:, :, :] * base_i_edge_vectors[:-1, :, :], axis = 2)
-    if not np.all(dot_jp >= 0.0) and np.all(dot_ip >= 0.0):
+    if not (np.all(dot_jp >= 0.0) and np.all(dot_ip >= 0.0)):
         log.warning('base cell edges for neighbouring cells flip direction somewhere: this grid is probably unusable')
         good = False
     return good
-- 
2.43.0


From e21983c72f412d1ad8774eb7e073b2e1a5c743c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:34 +0000
Subject: [PATCH 021/142] fix: sign of the term for non planar faces in volume
 of hexahedral cells

---
 resqpy/olio/volume.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/resqpy/olio/volume.py b/resqpy/olio/volume.py
index 33ba4b5..9575022 100644
--- a/resqpy/olio/volume.py
+++ b/resqpy/olio/volume.py
@@ -3,8 +3,8 @@
 import numpy as np
 
 
-def _pyr(ra, ab, ac, ad, db):  # returns 6 * volume of one quad pyramid, defined by specific vectors
-    return np.dot(ra, np.cross(db, ac)) + 0.5 * np.dot(ac, np.cross(ad, ab))
+def _pyr(ra, ab, ac, ad, bd):  # returns 6 * volume of one quad pyramid, defined by specific vectors
+    return np.dot(ra, np.cross(bd, ac)) + 0.5 * np.dot(ac, np.cross(ab, ad))
 
 
 def pyramid_volume(apex, a, b, c, d, crs_is_right_handed = False):
@@ -25,8 +25,8 @@ def pyramid_volume(apex, a, b, c, d, crs_is_right_handed = False):
     b = np.array(b)
     c = np.array(c)
     d = np.array(d)
-    v = _pyr(a - apex, b - a, c - a, d - a, b - d) / 6.0
-    if not crs_is_right_handed:
+    v = _pyr(a - apex, b - a, c - a, d - a, d - b) / 6.0
+    if crs_is_right_handed:
         v = -v
     return v
 
@@ -114,8 +114,8 @@ def tetra_volumes(cp, centres = None, off_hand = False):
        those length units cubed
     """
 
-    def pyrs(ra, ab, ac, ad, db):  # returns 6 * volume of one quad pyramid (for each cell)
-        return np.sum(ra * np.cross(db, ac), axis = -1) + 0.5 * np.sum(ac * np.cross(ad, ab), axis = -1)
+    def pyrs(ra, ab, ac, ad, bd):  # returns 6 * volume of one quad pyramid (for each cell)
+        return np.sum(ra * np.cross(bd, ac), axis = -1) + 0.5 * np.sum(ac * np.cross(ab, ad), axis = -1)
 
     # Pagoda style corner point data
     assert cp.ndim == 7
-- 
2.43.0


From 5c99a918c7da16d7bcb9c094efe8eb9b7a0c64af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:29 +0000
Subject: [PATCH 022/142] fix: thickness of single cell from property without
 caching

---
 resqpy/grid/_cell_properties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/grid/_cell_properties.py b/resqpy/grid/_cell_properties.py
index d7ca8da..8d99ba5 100644
--- a/resqpy/grid/_cell_properties.py
+++ b/resqpy/grid/_cell_properties.py
@@ -85,7 +85,7 @@ def thickness(grid,
             grid.array_thickness = thick.copy()
         if cell_kji0 is None:
             return grid.array_thickness
-        return grid.array_thickness[tuple(cell_kji0)]  # could check for nan here and return None
+        return thick[tuple(cell_kji0)]  # could check for nan here and return None
 
     points_root = grid.resolve_geometry_child('Points', child_node = points_root)
     if cache_thickness_array:
-- 
2.43.0


From 2c2c23c812d27229e33af88295dd4134eba7d469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:24 +0000
Subject: [PATCH 023/142] fix: import_nexus units, eight mode and active mask

---
 resqpy/rq_import/_import_nexus.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/resqpy/rq_import/_import_nexus.py b/resqpy/rq_import/_import_nexus.py
index 44342dc..0debc28 100644
--- a/resqpy/rq_import/_import_nexus.py
+++ b/resqpy/rq_import/_import_nexus.py
@@ -208,7 +208,8 @@ def import_nexus(
                 corp_bin = True,
                 comment_char = None,  # comment char will be detected automatically
                 data_free_of_comments = False,
-                use_binary = use_binary)
+                use_binary = use_binary,
+                eight_mode = corp_eight_mode)
         else:
             cp_binary_file = abt.cp_binary_filename(
                 corp_file, nexus_ordering = False)  # pure binary, not bespoke corp bin used above
@@ -226,7 +227,8 @@ def import_nexus(
                     corp_bin = False,
                     comment_char = None,  # comment char will be detected automatically
                     data_free_of_comments = False,
-                    use_binary = use_binary)
+                    use_binary = use_binary,
+                    eight_mode = corp_eight_mode)
                 if use_binary:
                     wd.write_pure_binary_data(cp_binary_file,
                                               cp_array)  # NB: this binary file is resequenced, not in nexus ordering!
@@ -251,7 +253,7 @@ def import_nexus(
     if corp_xy_units == corp_z_units and resqml_xy_units == resqml_z_units:
         bwam.convert_lengths(cp_array, corp_xy_units, resqml_xy_units)
     else:
-        bwam.convert_lengths(cp_array[:, :, :, :, :, :, 0:1], corp_xy_units, resqml_xy_units)
+        bwam.convert_lengths(cp_array[:, :, :, :, :, :, 0:2], corp_xy_units, resqml_xy_units)
         bwam.convert_lengths(cp_array[:, :, :, :, :, :, 2], corp_z_units, resqml_z_units)
 
     # invert z if required
@@ -484,6 +486,10 @@ def import_nexus(
     elif not ensemble_case_dirs_root:
         log.info('no static grid properties to import')
         prop_import_collection = None
+    if prop_import_collection is None and not using_vdb and grid.inactive is not None and np.any(grid.inactive):
+        # ensure that a part is created for the active cell property
+        prop_import_collection = rp.GridPropertyCollection()
+        prop_import_collection.set_grid(grid)
     grid.write_hdf5_from_caches(resqml_file_root + '.h5',
                                 geometry = False,
                                 imported_properties = prop_import_collection,
-- 
2.43.0


From f0fbb8cf67b9c86e4458e0a7f75ae247e12c7a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:24 +0000
Subject: [PATCH 024/142] fix: grid_from_cp layer indices with gaps, handedness
 with z up, and pillars with partial geometry

---
 resqpy/rq_import/_grid_from_cp.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/resqpy/rq_import/_grid_from_cp.py b/resqpy/rq_import/_grid_from_cp.py
index ede7fb6..6c006cf 100644
--- a/resqpy/rq_import/_grid_from_cp.py
+++ b/resqpy/rq_import/_grid_from_cp.py
@@ -227,7 +227,7 @@ class _GridFromCp:
                 layer_gap_unmasked = np.where(gap[k].mask, 0.0, layer_gap)
                 self.__masked_cp_array[k + 1, :, :, 0, :, :, :] -= layer_gap_unmasked
                 self.__masked_cp_array[k, :, :, 1, :, :, :] += layer_gap_unmasked
-            self.__k_gap_raw_index[k + 1] = k + self.__k_gaps
+            self.__k_gap_raw_index[k + 1] = k + 1 + self.__k_gaps
 
     def __close_gaps(self, gap):
         # close voids (includes shifting x & y)
@@ -314,25 +314,31 @@ class _GridFromCp:
             self.__split_pillars = False
         log.debug('number of extra pillars: ' + str(len(self.__extras_list)))
 
+    def __pillar_discrepancy(self, corner, pillar_corner):
+        # returns maximum difference between points for column corner and those of column corner in use for a pillar
+        points = ma.filled(self.__k_reduced_cp_array[(slice(None),) + corner], np.nan)
+        pillar_points = ma.filled(self.__k_reduced_cp_array[(slice(None),) + pillar_corner], np.nan)
+        defined = np.logical_not(np.isnan(points))
+        if np.any(np.isnan(pillar_points[defined])):
+            return np.inf  # column corner has geometry which would be lost if using the pillar
+        return np.max(np.abs(points[defined] - pillar_points[defined]), initial = 0.0)
+
     def __append_single_pillar(self, i, j, ip, jp, col_j, p_col_i, p_col_j, primary_ip, primary_jp):
         col_i = i - ip
         if col_i < 0 or col_i >= self.__ni:
             return  # no column this side of pillar in i
         if jp == primary_jp and ip == primary_ip:
             return  # this column is the primary for this pillar
-        discrepancy = np.max(
-            np.abs(self.__k_reduced_cp_array[:, col_j, col_i, jp, ip, :] -
-                   self.__k_reduced_cp_array[:, p_col_j, p_col_i, primary_jp, primary_ip, :]))
+        discrepancy = self.__pillar_discrepancy((col_j, col_i, jp, ip), (p_col_j, p_col_i, primary_jp, primary_ip))
         if discrepancy <= self.__split_tolerance:
             return  # data for this column's corner aligns with primary
         for e in range(self.__extras_count[j, i]):
             eli = self.__extras_list_index[j, i] + e
             pillar_j_extra = j - self.__extras_list[eli][0]
             pillar_i_extra = i - self.__extras_list[eli][1]
-            discrepancy = np.max(
-                np.abs(self.__k_reduced_cp_array[:, col_j, col_i, jp, ip, :] -
-                       self.__k_reduced_cp_array[:, pillar_j_extra, pillar_i_extra, self.__extras_list[eli][0],
-                                                 self.__extras_list[eli][1], :]))
+            discrepancy = self.__pillar_discrepancy(
+                (col_j, col_i, jp, ip),
+                (pillar_j_extra, pillar_i_extra, self.__extras_list[eli][0], self.__extras_list[eli][1]))
             if discrepancy <= self.__split_tolerance:  # data for this corner aligns with existing extra
                 self.__extras_use[col_j, col_i, jp, ip] = e
                 break
@@ -515,7 +521,7 @@ class _GridFromCp:
                                           0.0)
             if not self.grid.k_direction_is_down:
                 self.__cell_ijk_lefthanded = not self.__cell_ijk_lefthanded
-            if self.__crs.is_right_handed_xyz():
+            if self.__crs.is_right_handed_xy():
                 self.__cell_ijk_lefthanded = not self.__cell_ijk_lefthanded
             self.grid.grid_is_right_handed = not self.__cell_ijk_lefthanded
         else:
-- 
2.43.0


From 521c6ddd5481fc6dcdd1b658d394400c1f307485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:20 +0000
Subject: [PATCH 025/142] fix: report undefined grid geometry for split pillars
 and all primary pillars

---
 resqpy/grid/_defined_geometry.py | 63 ++++++++++++++------------------
 1 file changed, 28 insertions(+), 35 deletions(-)

diff --git a/resqpy/grid/_defined_geometry.py b/resqpy/grid/_defined_geometry.py
index e144010..54e0bf3 100644
--- a/resqpy/grid/_defined_geometry.py
+++ b/resqpy/grid/_defined_geometry.py
@@ -175,8 +175,8 @@ def geometry_defined_for_all_pillars(grid, cache_array = True, pillar_geometry_i
     is_def_root = grid.resolve_geometry_child('PillarGeometryIsDefined', child_node = pillar_geometry_is_defined_root)
     grid.geometry_defined_for_all_pillars_cached = True
     if is_def_root is not None:
-        for pillar_j in range(grid.nj):
-            for pillar_i in range(grid.ni):
+        for pillar_j in range(grid.nj + 1):
+            for pillar_i in range(grid.ni + 1):
                 if not grid.pillar_geometry_is_defined(
                     [pillar_j, pillar_i], pillar_geometry_is_defined_root = is_def_root, cache_array = False):
                     grid.geometry_defined_for_all_pillars_cached = False
@@ -263,6 +263,7 @@ def set_geometry_is_defined(grid,
         complete_partial_pillars = True
 
     points = grid.points_ref(masked = False)
+    grid.create_column_pillar_mapping()  # cached for use when identifying undefined cells
 
     if treat_as_nan is not None:
         nan_mask = np.any(np.logical_or(np.isnan(points), points == treat_as_nan), axis = -1)
@@ -293,6 +294,9 @@ def set_geometry_is_defined(grid,
 
     assert not np.all(nan_mask), 'grid does not have any geometry defined'
 
+    if nullify_partial_pillars:
+        nan_mask = np.logical_or(nan_mask, np.expand_dims(np.any(nan_mask, axis = 0), axis = 0))
+
     points[np.where(np.repeat(np.expand_dims(nan_mask, axis = nan_mask.ndim), 3, axis = -1))] = np.nan
 
     surround_z = grid.xyz_box(lazy = False)[1 if grid.z_inc_down() else 0, 2]
@@ -309,17 +313,7 @@ def set_geometry_is_defined(grid,
 
     grid.geometry_defined_for_all_cells_cached = False
 
-    primary_nan_mask = nan_mask.reshape((grid.nk_plus_k_gaps + 1, -1))[:, :primary_count].reshape(
-        (grid.nk_plus_k_gaps + 1, grid.nj + 1, grid.ni + 1))
-
-    column_nan_mask = np.logical_or(np.logical_or(primary_nan_mask[:, :-1, :-1], primary_nan_mask[:, :-1, 1:]),
-                                    np.logical_or(primary_nan_mask[:, 1:, :-1], primary_nan_mask[:, 1:, 1:]))
-
-    if grid.k_gaps:
-        grid.array_cell_geometry_is_defined = np.logical_not(
-            np.logical_or(column_nan_mask[grid.k_raw_index_array], column_nan_mask[grid.k_raw_index_array + 1]))
-    else:
-        grid.array_cell_geometry_is_defined = np.logical_not(np.logical_or(column_nan_mask[:-1], column_nan_mask[1:]))
+    grid.array_cell_geometry_is_defined = __cells_defined_from_nan_mask(grid, nan_mask)
 
     if hasattr(grid, 'inactive') and grid.inactive is not None:
         grid.inactive = np.logical_or(grid.inactive, np.logical_not(grid.array_cell_geometry_is_defined))
@@ -332,13 +326,7 @@ def set_geometry_is_defined(grid,
 
     cells_update_needed = False
 
-    if nullify_partial_pillars:
-        partial_pillar_mask = np.logical_and(pillar_defined_mask, np.any(nan_mask, axis = 0).flatten())
-        if np.any(partial_pillar_mask):
-            points.reshape((grid.nk_plus_k_gaps + 1, -1, 3))[:, partial_pillar_mask, :] = np.nan
-            grid.geometry_defined_for_all_pillars_cached = False
-            cells_update_needed = True
-    elif complete_partial_pillars:
+    if complete_partial_pillars:
         partial_pillar_mask = np.logical_and(pillar_defined_mask, np.any(nan_mask, axis = 0).flatten())
         if np.any(partial_pillar_mask):
             log.warning('completing geometry for partially defined pillars')
@@ -357,18 +345,23 @@ def set_geometry_is_defined(grid,
             if hasattr(grid, 'array_cell_geometry_is_defined'):
                 del grid.array_cell_geometry_is_defined
         else:
-            top_nan_mask = np.isnan(points[0, ..., 0].flatten()[:(grid.nj + 1) * (grid.ni + 1)].reshape(
-                (grid.nj + 1, grid.ni + 1)))
-            column_nan_mask = np.logical_or(np.logical_or(top_nan_mask[:-1, :-1], top_nan_mask[:-1, 1:]),
-                                            np.logical_or(top_nan_mask[1:, :-1], top_nan_mask[1:, 1:]))
-            grid.array_cell_geometry_is_defined = np.repeat(np.logical_not(np.expand_dims(column_nan_mask, 0)),
-                                                            grid.nk,
-                                                            axis = 0)
+            grid.array_cell_geometry_is_defined = __cells_defined_from_nan_mask(grid, np.isnan(points[..., 0]))
             grid.geometry_defined_for_all_cells_cached = np.all(grid.array_cell_geometry_is_defined)
             if grid.geometry_defined_for_all_cells_cached:
                 del grid.array_cell_geometry_is_defined
 
 
+def __cells_defined_from_nan_mask(grid, nan_mask):
+    # returns boolean array of shape (nk, nj, ni) being True where none of the cell's points (primary or split) are NaN
+    pillars_for_columns = grid.create_column_pillar_mapping()  # shape (nj, ni, 2, 2)
+    pillar_nan_mask = nan_mask.reshape((grid.nk_plus_k_gaps + 1, -1))
+    column_nan_mask = np.any(pillar_nan_mask[:, pillars_for_columns], axis = (-2, -1))
+    if grid.k_gaps:
+        return np.logical_not(
+            np.logical_or(column_nan_mask[grid.k_raw_index_array], column_nan_mask[grid.k_raw_index_array + 1]))
+    return np.logical_not(np.logical_or(column_nan_mask[:-1], column_nan_mask[1:]))
+
+
 def __complete_all_pillars(cells_update_needed, grid, points, surround_z):
     # note: each pillar is either fully defined or fully undefined at this point
     top_nan_mask = np.isnan(points[0, ..., 0].flatten()[:(grid.nj + 1) * (grid.ni + 1)].reshape(
@@ -408,7 +401,7 @@ def __handle_areal_dots(areal_dots, grid, nan_mask):
     else:
         dot_mask = np.zeros((grid.nk + 1, grid.nj + 1, grid.ni + 1), dtype = bool)
         dot_mask[:-1, :-1, :-1] = areal_dots
-        dot_mask[1:, :-1, :-1] = np.logical_or(dot_mask[:-1, :-1, :-1], areal_dots)
+        dot_mask[1:, :-1, :-1] = np.logical_or(dot_mask[1:, :-1, :-1], areal_dots)
     dot_mask[:, 1:, :-1] = np.logical_or(dot_mask[:, :-1, :-1], dot_mask[:, 1:, :-1])
     dot_mask[:, :, 1:] = np.logical_or(dot_mask[:, :, :-1], dot_mask[:, :, 1:])
     if grid.has_split_coordinate_lines:
@@ -416,7 +409,7 @@ def __handle_areal_dots(areal_dots, grid, nan_mask):
         primaries = (grid.nj + 1) * (grid.ni + 1)
         nan_mask[:, :primaries] = np.logical_or(nan_mask[:, :primaries], dot_mask.reshape((-1, primaries)))
     else:
-        nan_mask = np.where(dot_mask, np.nan, nan_mask)
+        nan_mask = np.logical_or(nan_mask, dot_mask)
     return nan_mask
 
 
@@ -594,7 +587,7 @@ def __fill_surround(grid, surround_mask):
         (grid.nj + 1, grid.ni + 1, 2))
     modified = False
     if grid.nj > 1:
-        j_xy_vector = np.nanmean(points_view[1:, :] - points_view[:-1, :])
+        j_xy_vector = np.nanmean(points_view[1:, :] - points_view[:-1, :], axis = (0, 1))
         j = 0
         while j < grid.nj and np.all(surround_mask[j, :]):
             j += 1
@@ -603,16 +596,16 @@ def __fill_surround(grid, surround_mask):
             points_view[j - 1, :] = points_view[j, :] - j_xy_vector
             modified = True
             j -= 1
-        j = grid.nj - 1
+        j = grid.nj
         while j >= 0 and np.all(surround_mask[j, :]):
             j -= 1
         assert j >= 0
-        while j < grid.nj - 1:
+        while j < grid.nj:
             points_view[j + 1, :] = points_view[j, :] + j_xy_vector
             modified = True
             j += 1
     if grid.ni > 1:
-        i_xy_vector = np.nanmean(points_view[:, 1:] - points_view[:, :-1])
+        i_xy_vector = np.nanmean(points_view[:, 1:] - points_view[:, :-1], axis = (0, 1))
         i = 0
         while i < grid.ni and np.all(surround_mask[:, i]):
             i += 1
@@ -621,11 +614,11 @@ def __fill_surround(grid, surround_mask):
             points_view[:, i - 1] = points_view[:, i] - i_xy_vector
             modified = True
             i -= 1
-        i = grid.ni - 1
+        i = grid.ni
         while i >= 0 and np.all(surround_mask[:, i]):
             i -= 1
         assert i >= 0
-        while i < grid.ni - 1:
+        while i < grid.ni:
             points_view[:, i + 1] = points_view[:, i] + i_xy_vector
             modified = True
             i += 1
-- 
2.43.0


From f896848b360928637d9cc3561e09a64be692dbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:21 +0000
Subject: [PATCH 026/142] fix: store one interval per coarse cell for
 coarsening parent window

---
 resqpy/grid/_create_grid_xml.py        | 5 +----
 resqpy/grid/_write_hdf5_from_caches.py | 2 +-
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/resqpy/grid/_create_grid_xml.py b/resqpy/grid/_create_grid_xml.py
index e66a787..eb055a3 100644
--- a/resqpy/grid/_create_grid_xml.py
+++ b/resqpy/grid/_create_grid_xml.py
@@ -145,10 +145,7 @@ def _create_grid_xml(grid,
             if grid.parent_window.constant_ratios[axis] is not None:
                 interval_count = 1
             else:
-                if grid.is_refinement:
-                    interval_count = grid.parent_window.coarse_extent_kji[axis]
-                else:
-                    interval_count = grid.parent_window.fine_extent_kji[axis]
+                interval_count = grid.parent_window.coarse_extent_kji[axis]
             ic_node = rqet.SubElement(intervals_node, ns['resqml2'] + 'IntervalCount')
             ic_node.set(ns['xsi'] + 'type', ns['xsd'] + 'positiveInteger')
             ic_node.text = str(interval_count)
diff --git a/resqpy/grid/_write_hdf5_from_caches.py b/resqpy/grid/_write_hdf5_from_caches.py
index db82c3b..7bdf784 100644
--- a/resqpy/grid/_write_hdf5_from_caches.py
+++ b/resqpy/grid/_write_hdf5_from_caches.py
@@ -154,7 +154,7 @@ def __write_geometry(grid, h5_reg, use_parametric_lines):
                     pcpi = np.ones(interval_count, dtype = int)
                     ccpi = np.array(grid.parent_window.vector_ratios[axis], dtype = int)
                 else:
-                    interval_count = grid.parent_window.fine_extent_kji[axis]
+                    interval_count = grid.parent_window.coarse_extent_kji[axis]
                     pcpi = np.array(grid.parent_window.vector_ratios[axis], dtype = int)
                     ccpi = np.ones(interval_count, dtype = int)
             h5_reg.register_dataset(grid.uuid, 'KJI'[axis] + 'Regrid/ParentCountPerInterval', pcpi)
-- 
2.43.0


From cf2bc40de5204a1d6cf48af72859270448b24f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:21 +0000
Subject: [PATCH 027/142] fix: point_raw for parametric lines and for points on
 defined pillars

---
 resqpy/grid/_points_functions.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/resqpy/grid/_points_functions.py b/resqpy/grid/_points_functions.py
index 7dda036..7d76d88 100644
--- a/resqpy/grid/_points_functions.py
+++ b/resqpy/grid/_points_functions.py
@@ -158,8 +158,8 @@ def point_raw(grid, index = None, points_root = None, cache_array = True):
         if len(index) == 3:
             ji = tuple(index[1:])
         else:
-            ji = tuple(divmod(index[1], grid.ni))
-        if ji[0] < grid.nj and not grr_dg.pillar_geometry_is_defined(grid, ji, cache_array = cache_array):
+            ji = tuple(divmod(index[1], grid.ni + 1))
+        if ji[0] <= grid.nj and not grr_dg.pillar_geometry_is_defined(grid, ji, cache_array = cache_array):
             return None
     if grid.points_cached is not None:
         if index is None:
@@ -227,6 +227,16 @@ def point_raw(grid, index = None, points_root = None, cache_array = True):
         assert hasattr(grid, 'temp_cp') and grid.temp_cp is not None and grid.temp_cp.shape == (2, pp_count, 3)
         pillar_count = pp_count
         if grid.has_split_coordinate_lines:
+            if not hasattr(grid, 'split_pillar_indices_cached'):
+                pillar_indices_root = rqet.find_tag(grid.resolve_geometry_child('SplitCoordinateLines'),
+                                                    'PillarIndices')
+                split_key_pair = grid.model.h5_uuid_and_path_for_node(pillar_indices_root)
+                grid.model.h5_array_element(split_key_pair,
+                                            index = None,
+                                            cache_array = True,
+                                            object = grid,
+                                            array_attribute = 'split_pillar_indices_cached',
+                                            dtype = 'int')
             assert hasattr(grid, 'split_pillar_indices_cached') and grid.split_pillar_indices_cached is not None
             pillar_count += grid.split_pillar_indices_cached.size
         cpp = np.empty((2, pillar_count), dtype = float)
@@ -266,6 +276,8 @@ def point_raw(grid, index = None, points_root = None, cache_array = True):
         raise NotImplementedError(f'grid gepmetry loading for points type: {points_type}')
     if index is None:
         return grid.points_cached
+    if points_type == 'Point3dParametricArray':
+        return grid.points_cached[tuple(index)]
     return value
 
 
-- 
2.43.0


From 86deda06e9c1bbe74fa5513ef34f006be58037cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:51 +0000
Subject: [PATCH 028/142] fix: reuse and persistence of interpretations

---
 resqpy/organize/earth_model_interpretation.py      |  5 +----
 resqpy/organize/fault_interpretation.py            |  8 ++++----
 resqpy/organize/generic_interpretation.py          |  4 ++--
 resqpy/organize/geobody_boundary_interpretation.py |  5 +----
 resqpy/organize/geobody_interpretation.py          |  6 ++----
 resqpy/organize/horizon_interpretation.py          |  5 +----
 resqpy/organize/wellbore_interpretation.py         | 13 ++++---------
 resqpy/rq_import/_add_surfaces.py                  |  2 +-
 8 files changed, 16 insertions(+), 32 deletions(-)

diff --git a/resqpy/organize/earth_model_interpretation.py b/resqpy/organize/earth_model_interpretation.py
index a6b8a4f..3732fbf 100644
--- a/resqpy/organize/earth_model_interpretation.py
+++ b/resqpy/organize/earth_model_interpretation.py
@@ -65,10 +65,7 @@ class EarthModelInterpretation(BaseResqpy):
                 return False
         elif other.organization_feature is not None:
             return False
-        if self.root is not None and other.root is not None:
-            if rqet.citation_title_for_node(self.root) != rqet.citation_title_for_node(other.root):
-                return False
-        elif self.root is not None or other.root is not None:
+        if self.title != other.title:
             return False
         if check_extra_metadata and not equivalent_extra_metadata(self, other):
             return False
diff --git a/resqpy/organize/fault_interpretation.py b/resqpy/organize/fault_interpretation.py
index 703ef64..2564a5d 100644
--- a/resqpy/organize/fault_interpretation.py
+++ b/resqpy/organize/fault_interpretation.py
@@ -167,11 +167,11 @@ class FaultInterpretation(BaseResqpy):
         assert self.is_normal == (self.is_listric is None)
         if not self.title:
             if tectonic_boundary_feature_root is not None:
-                title = rqet.find_nested_tags_text(tectonic_boundary_feature_root, ['Citation', 'Title'])
+                self.title = rqet.find_nested_tags_text(tectonic_boundary_feature_root, ['Citation', 'Title'])
             else:
-                title = 'fault interpretation'
+                self.title = 'fault interpretation'
             if title_suffix:
-                title += ' ' + title_suffix
+                self.title += ' ' + title_suffix
 
         if reuse and self.try_reuse():
             return self.root
@@ -219,7 +219,7 @@ class FaultInterpretation(BaseResqpy):
         if self.mean_dip is not None:
             dip = rqet.SubElement(fi, ns['resqml2'] + 'MeanDip')
             dip.set(ns['xsi'] + 'type', ns['eml'] + 'PlaneAngleMeasure')
-            dip.text = str(self.mean_azimuth)
+            dip.text = str(self.mean_dip)
 
         if self.throw_interpretation_list is not None and len(self.throw_interpretation_list):
             previous_has_occurred_during = ('never', 'never')
diff --git a/resqpy/organize/generic_interpretation.py b/resqpy/organize/generic_interpretation.py
index 470a868..cb73d31 100644
--- a/resqpy/organize/generic_interpretation.py
+++ b/resqpy/organize/generic_interpretation.py
@@ -41,7 +41,7 @@ class GenericInterpretation(BaseResqpy):
                          extra_metadata = extra_metadata)
 
         if not self.title and feature_uuid is not None:
-            title = parent_model.title_for_root(parent_model.root_for_uuid(feature_uuid))
+            self.title = parent_model.title_for_root(parent_model.root_for_uuid(feature_uuid))
 
     def _load_from_xml(self):
         root_node = self.root
@@ -64,7 +64,7 @@ class GenericInterpretation(BaseResqpy):
             return False
         if self.domain != other.domain:
             return False
-        if not ou.equivalent_chrono_pairs(self.main_has_occurred_during, other.main_has_occurred_during):
+        if not ou.equivalent_chrono_pairs(self.has_occurred_during, other.has_occurred_during):
             return False
         if check_extra_metadata and not ou.equivalent_extra_metadata(self, other):
             return False
diff --git a/resqpy/organize/geobody_boundary_interpretation.py b/resqpy/organize/geobody_boundary_interpretation.py
index 256b224..89f6aac 100644
--- a/resqpy/organize/geobody_boundary_interpretation.py
+++ b/resqpy/organize/geobody_boundary_interpretation.py
@@ -85,10 +85,7 @@ class GeobodyBoundaryInterpretation(BaseResqpy):
                 return False
         elif other.genetic_boundary_feature is not None:
             return False
-        if self.root is not None and other.root is not None:
-            if rqet.citation_title_for_node(self.root) != rqet.citation_title_for_node(other.root):
-                return False
-        elif self.root is not None or other.root is not None:
+        if self.title != other.title:
             return False
         if ((self.domain != other.domain) or
                 not ou.equivalent_chrono_pairs(self.has_occurred_during, other.has_occurred_during)):
diff --git a/resqpy/organize/geobody_interpretation.py b/resqpy/organize/geobody_interpretation.py
index dd0bfb4..12c67a3 100644
--- a/resqpy/organize/geobody_interpretation.py
+++ b/resqpy/organize/geobody_interpretation.py
@@ -60,6 +60,7 @@ class GeobodyInterpretation(BaseResqpy):
 
     def _load_from_xml(self):
         root_node = self.root
+        self.domain = rqet.find_tag_text(root_node, 'Domain')
         interp_feature_ref_node = rqet.find_tag(root_node, 'InterpretedFeature')
         assert interp_feature_ref_node is not None
         self.feature_root = self.model.referenced_node(interp_feature_ref_node)
@@ -85,10 +86,7 @@ class GeobodyInterpretation(BaseResqpy):
                 return False
         elif other.geobody_feature is not None:
             return False
-        if self.root is not None and other.root is not None:
-            if rqet.citation_title_for_node(self.root) != rqet.citation_title_for_node(other.root):
-                return False
-        elif self.root is not None or other.root is not None:
+        if self.title != other.title:
             return False
         if check_extra_metadata and not ou.equivalent_extra_metadata(self, other):
             return False
diff --git a/resqpy/organize/horizon_interpretation.py b/resqpy/organize/horizon_interpretation.py
index 19bfdf1..f4c7757 100644
--- a/resqpy/organize/horizon_interpretation.py
+++ b/resqpy/organize/horizon_interpretation.py
@@ -79,10 +79,7 @@ class HorizonInterpretation(BaseResqpy):
                 return False
         elif other.genetic_boundary_feature is not None:
             return False
-        if self.root is not None and other.root is not None:
-            if rqet.citation_title_for_node(self.root) != rqet.citation_title_for_node(other.root):
-                return False
-        elif self.root is not None or other.root is not None:
+        if self.title != other.title:
             return False
         if ((self.domain != other.domain) or
                 not ou.equivalent_chrono_pairs(self.has_occurred_during, other.has_occurred_during) or
diff --git a/resqpy/organize/wellbore_interpretation.py b/resqpy/organize/wellbore_interpretation.py
index 7ce321e..18d9474 100644
--- a/resqpy/organize/wellbore_interpretation.py
+++ b/resqpy/organize/wellbore_interpretation.py
@@ -87,12 +87,7 @@ class WellboreInterpretation(BaseResqpy):
                 return False
         elif other.wellbore_feature is not None:
             return False
-        if self.root is not None and other.root is not None:
-            if rqet.citation_title_for_node(self.root) != rqet.citation_title_for_node(other.root):
-                return False
-            if self.domain != other.domain:
-                return False
-        elif self.root is not None or other.root is not None:
+        if self.domain != other.domain:
             return False
         if check_extra_metadata and not ou.equivalent_extra_metadata(self, other):
             return False
@@ -114,6 +109,9 @@ class WellboreInterpretation(BaseResqpy):
         if title_suffix:
             self.title += ' ' + title_suffix
 
+        if self.is_drilled is None:
+            self.is_drilled = False
+
         if reuse and self.try_reuse():
             return self.root
         wi = super().create_xml(add_as_part = False, originator = originator)
@@ -126,9 +124,6 @@ class WellboreInterpretation(BaseResqpy):
                 else:
                     assert wbf_root is wellbore_feature_root, 'wellbore feature mismatch'
 
-        if self.is_drilled is None:
-            self.is_drilled = False
-
         id_node = rqet.SubElement(wi, ns['resqml2'] + 'IsDrilled')
         id_node.set(ns['xsi'] + 'type', ns['xsd'] + 'boolean')
         id_node.text = str(self.is_drilled).lower()
diff --git a/resqpy/rq_import/_add_surfaces.py b/resqpy/rq_import/_add_surfaces.py
index e2d6fdb..a10d0b7 100644
--- a/resqpy/rq_import/_add_surfaces.py
+++ b/resqpy/rq_import/_add_surfaces.py
@@ -109,7 +109,7 @@ def _add_single_surface(model, surf_file, surface_file_format, surface_role, qua
         feature = rqo.GeneticBoundaryFeature(model, kind = 'horizon', feature_name = short_name)
         feature.create_xml()
         interp = rqo.HorizonInterpretation(model, genetic_boundary_feature = feature, domain = 'depth')
-        interp_root = interp.create_xml()
+        interp_root = interp.create_xml(reuse = False)  # one interpretation per surface
         surface.set_represented_interpretation_root(interp_root)
 
     surface.create_xml(add_as_part = True, add_relationships = True, title = short_name, originator = None)
-- 
2.43.0


From 9050545a64e22f6fdcc19b6de0517fec93287d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:51 +0000
Subject: [PATCH 029/142] fix: string lookup index limits when setting strings

---
 resqpy/property/string_lookup.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/resqpy/property/string_lookup.py b/resqpy/property/string_lookup.py
index 5d99ca5..8d54b7c 100644
--- a/resqpy/property/string_lookup.py
+++ b/resqpy/property/string_lookup.py
@@ -114,11 +114,11 @@ class StringLookup(BaseResqpy):
 
         self.str_dict[key] = value
         limits_changed = False
-        if self.min_index is None or value < self.min_index:
-            self.min_index = value
+        if self.min_index is None or key < self.min_index:
+            self.min_index = key
             limits_changed = True
-        if self.max_index is None or value > self.max_index:
-            self.max_index = value
+        if self.max_index is None or key > self.max_index:
+            self.max_index = key
             limits_changed = True
         if self.stored_as_list:
             if limits_changed:
-- 
2.43.0


From a422d1a9478001787960facfa1fe1eb74606c20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:51 +0000
Subject: [PATCH 030/142] fix: zone property kind lookup uses the stored object
 type

---
 resqpy/property/property_kind.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/property/property_kind.py b/resqpy/property/property_kind.py
index 733af18..5ca01e7 100644
--- a/resqpy/property/property_kind.py
+++ b/resqpy/property/property_kind.py
@@ -130,7 +130,7 @@ def create_transmisibility_multiplier_property_kind(model):
 def establish_zone_property_kind(model):
     """Returns zone local property kind object, creating the xml and adding as part if not found in model."""
 
-    zone_pk_uuid = model.uuid(obj_type = 'LocalPropertyKind', title = 'zone')
+    zone_pk_uuid = model.uuid(obj_type = 'PropertyKind', title = 'zone')
     if zone_pk_uuid is None:
         zone_pk = PropertyKind(model, title = 'zone', parent_property_kind = 'discrete')
         zone_pk.create_xml()
-- 
2.43.0


From f0321d83d778aff010db525e02a2977f640caea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:51 +0000
Subject: [PATCH 031/142] fix: equivalence of stratigraphic units and features

---
 resqpy/strata/_geologic_unit_interpretation.py      | 7 ++-----
 resqpy/strata/_stratigraphic_unit_feature.py        | 4 ++++
 resqpy/strata/_stratigraphic_unit_interpretation.py | 2 +-
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/resqpy/strata/_geologic_unit_interpretation.py b/resqpy/strata/_geologic_unit_interpretation.py
index 1eade6d..6ebf8f5 100644
--- a/resqpy/strata/_geologic_unit_interpretation.py
+++ b/resqpy/strata/_geologic_unit_interpretation.py
@@ -69,7 +69,7 @@ class GeologicUnitInterpretation(BaseResqpy):
         self.geologic_unit_feature = geologic_unit_feature  # InterpretedFeature RESQML field
         self.has_occurred_during = (None, None)  # optional RESQML item
         if (not title) and geologic_unit_feature is not None:
-            title = geologic_unit_feature.feature_name
+            title = geologic_unit_feature.title
         self.composition = composition  # optional RESQML item
         self.material_implacement = material_implacement  # optional RESQML item
         super().__init__(model = parent_model, uuid = uuid, title = title, extra_metadata = extra_metadata)
@@ -119,10 +119,7 @@ class GeologicUnitInterpretation(BaseResqpy):
                 return False
         elif other.geologic_unit_feature is not None:
             return False
-        if self.root is not None and other.root is not None:
-            if rqet.citation_title_for_node(self.root) != rqet.citation_title_for_node(other.root):
-                return False
-        elif self.root is not None or other.root is not None:
+        if self.title != other.title:
             return False
         if check_extra_metadata and not rqo.equivalent_extra_metadata(self, other):
             return False
diff --git a/resqpy/strata/_stratigraphic_unit_feature.py b/resqpy/strata/_stratigraphic_unit_feature.py
index 4d38f02..7f6095b 100644
--- a/resqpy/strata/_stratigraphic_unit_feature.py
+++ b/resqpy/strata/_stratigraphic_unit_feature.py
@@ -78,6 +78,10 @@ class StratigraphicUnitFeature(BaseResqpy):
             return False
         if self is other or bu.matching_uuids(self.uuid, other.uuid):
             return True
+        for unit_attr in ('top_unit_uuid', 'bottom_unit_uuid'):
+            unit_a, unit_b = getattr(self, unit_attr), getattr(other, unit_attr)
+            if (unit_a is None) != (unit_b is None) or (unit_a is not None and not bu.matching_uuids(unit_a, unit_b)):
+                return False
         return (self.title == other.title and
                 ((not check_extra_metadata) or rqo.equivalent_extra_metadata(self, other)))
 
diff --git a/resqpy/strata/_stratigraphic_unit_interpretation.py b/resqpy/strata/_stratigraphic_unit_interpretation.py
index c6fa901..9dc0dd1 100644
--- a/resqpy/strata/_stratigraphic_unit_interpretation.py
+++ b/resqpy/strata/_stratigraphic_unit_interpretation.py
@@ -137,7 +137,7 @@ class StratigraphicUnitInterpretation(rqsgui.GeologicUnitInterpretation):
         returns:
            bool: True if this interpretation is essentially the same as the other; False otherwise
         """
-        if not super().is_equivalent(other):
+        if not super().is_equivalent(other, check_extra_metadata = check_extra_metadata):
             return False
         if self.deposition_mode is not None and other.deposition_mode is not None:
             return self.deposition_mode == other.deposition_mode
-- 
2.43.0


From 40de8b647213ba702a9ffdb97fa3b0d004674da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:46 +0000
Subject: [PATCH 032/142] fix: keep soft relationships and relationship parts
 consistent when parts are added, imported, removed or reloaded

---
 resqpy/model/_forestry.py | 43 ++++++++++++++++++++-------------------
 resqpy/model/_xml.py      |  8 ++++----
 2 files changed, 26 insertions(+), 25 deletions(-)

diff --git a/resqpy/model/_forestry.py b/resqpy/model/_forestry.py
index feaa787..a4d4b71 100644
--- a/resqpy/model/_forestry.py
+++ b/resqpy/model/_forestry.py
@@ -206,17 +206,16 @@ def _add_uuid_soft_relations(model, uuid_int, part):
         if rels_root is not None:
             for relation_node in rels_root:
                 if rqet.stripped_of_prefix(relation_node.tag) != 'Relationship':
-                    return
+                    continue
                 if 'Target' not in relation_node.attrib.keys():
-                    return
+                    continue
                 relation_part_name = relation_node.attrib['Target']
                 relation_uuid_str = rqet.uuid_in_part_name(relation_part_name, return_uuid_str = True)
                 if relation_uuid_str is None:
-                    return  # probably HDF5 external resource
+                    continue  # probably HDF5 external resource
                 relation_uuid_int = _hex_to_int(relation_uuid_str)
-                rels_sets = model.uuid_rels_dict.get(uuid_int)
-                if rels_sets is not None and relation_uuid_int not in rels_sets[
-                        0] and relation_uuid_int not in rels_sets[1]:
+                rels_sets = model.uuid_rels_dict.setdefault(uuid_int, (set(), set(), set()))
+                if relation_uuid_int not in rels_sets[0] and relation_uuid_int not in rels_sets[1]:
                     rels_sets[2].add(relation_uuid_int)
 
 
@@ -235,6 +234,7 @@ def _add_uuid_relations(model, uuid_int, part):
             model.uuid_rels_dict[uuid_int] = ({ref_uuid_int}, set(), set())
         else:
             value[0].add(ref_uuid_int)
+            value[2].discard(ref_uuid_int)
 
         # Adding uuid to the reference uuid key.
         ref_value = model.uuid_rels_dict.get(ref_uuid_int)
@@ -242,6 +242,7 @@ def _add_uuid_relations(model, uuid_int, part):
             model.uuid_rels_dict[ref_uuid_int] = (set(), {uuid_int}, set())
         else:
             ref_value[1].add(uuid_int)
+            ref_value[2].discard(uuid_int)
 
 
 def _copy_dataset_if_requested(copy_from, epc_file, quiet):
@@ -477,20 +478,22 @@ def _remove_part(model, part_name, remove_relationship_part):
         else:
             related_parts = m_c._parts_list_filtered_by_related_uuid(model, m_c._list_of_parts(model),
                                                                      rqet.uuid_in_part_name(part_name))
-            for relative in related_parts:
-                (rel_uuid, rel_tree) = model.rels_forest[rqet.rels_part_name_for_part(relative)]
+            for relative in related_parts + m_c._external_parts_list(model):
+                (rel_uuid, rel_tree) = model.rels_forest.get(rqet.rels_part_name_for_part(relative), (None, None))
+                if rel_tree is None:
+                    continue
                 rel_root = rel_tree.getroot()
-                for child in rel_root:
+                for child in list(rel_root):
                     if rqet.stripped_of_prefix(child.tag) != 'Relationship':
                         continue
                     if child.attrib['Target'] == part_name:
                         rel_root.remove(child)
             rels_part_name = rqet.rels_part_name_for_part(part_name)
-        model.rels_forest.pop(rels_part_name)
+        model.rels_forest.pop(rels_part_name, None)
     _del_uuid_to_part(model, part_name)
     _del_uuid_relations(model, part_name)
     model.parts_forest.pop(part_name)
-    model.object_parts.pop(part_name)
+    model.object_parts.pop(part_name, None)
     _remove_part_from_main_tree(model, part_name)
     model.set_modified()
 
@@ -499,16 +502,14 @@ def _del_uuid_relations(model, part_name):
     uuid = model.uuid_for_part(part_name)
     if uuid is None:
         return
-    relations = model.uuid_rels_dict[uuid.int]
-    for related_uuid_int in relations[0]:
-        model.uuid_rels_dict[related_uuid_int][1].remove(uuid.int)
-    for related_uuid_int in relations[1]:
-        model.uuid_rels_dict[related_uuid_int][0].remove(uuid.int)
-    for related_uuid_int in relations[2]:
-        value = model.uuid_rels_dict.get(related_uuid_int)
-        if value is not None:
-            value[2].remove(uuid.int)
-    model.uuid_rels_dict.pop(uuid.int)
+    relations = model.uuid_rels_dict.pop(uuid.int, None)
+    if relations is None:
+        return
+    for mode, reciprocal_mode in ((0, 1), (1, 0), (2, 2)):
+        for related_uuid_int in relations[mode]:
+            value = model.uuid_rels_dict.get(related_uuid_int)
+            if value is not None:
+                value[reciprocal_mode].discard(uuid.int)
 
 
 def _duplicate_node(model, existing_node, add_as_part = True, add_to_rels_dict = True):
diff --git a/resqpy/model/_xml.py b/resqpy/model/_xml.py
index a0e5ffd..53da272 100644
--- a/resqpy/model/_xml.py
+++ b/resqpy/model/_xml.py
@@ -629,10 +629,10 @@ def _create_reciprocal_relationship(model, node_a, rel_type_a, node_b, rel_type_
     rel_uuid_a_int = rel_uuid_a.int
     rel_uuid_b_int = rel_uuid_b.int
 
-    value = model.uuid_rels_dict.get(rel_uuid_a_int)
-    if value is not None and rel_uuid_b_int not in value[0] and rel_uuid_b_int not in value[1]:
+    value = model.uuid_rels_dict.setdefault(rel_uuid_a_int, (set(), set(), set()))
+    if rel_uuid_b_int not in value[0] and rel_uuid_b_int not in value[1]:
         value[2].add(rel_uuid_b_int)
 
-    value = model.uuid_rels_dict.get(rel_uuid_b_int)
-    if value is not None and rel_uuid_a_int not in value[0] and rel_uuid_a_int not in value[1]:
+    value = model.uuid_rels_dict.setdefault(rel_uuid_b_int, (set(), set(), set()))
+    if rel_uuid_a_int not in value[0] and rel_uuid_a_int not in value[1]:
         value[2].add(rel_uuid_a_int)
-- 
2.43.0


From 01ddd5c674880121be5985e9b0b02ac5681170e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:46 +0000
Subject: [PATCH 033/142] fix: an empty parts_list means no parts and
 epc_subdir matches whole leading directories

---
 resqpy/model/_catalogue.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/model/_catalogue.py b/resqpy/model/_catalogue.py
index 0a74510..84e9f3d 100644
--- a/resqpy/model/_catalogue.py
+++ b/resqpy/model/_catalogue.py
@@ -25,7 +25,7 @@ def _parts(model,
            sort_by = None):
     """Returns a list of parts matching all of the arguments passed."""
 
-    if not parts_list:
+    if parts_list is None:
         parts_list = _list_of_parts(model)
     if uuid is not None:
         part_name = model.uuid_part_dict.get(bu.uuid_as_int(uuid))
@@ -719,7 +719,7 @@ def _filtered_by_epc_subdir(model, parts_list, epc_subdir):
             epc_subdir += '/'
         filtered_list = []
         for part in parts_list:
-            if part.startswith[epc_subdir]:
+            if part.startswith(epc_subdir):
                 filtered_list.append(part)
         return filtered_list
     else:
-- 
2.43.0


From ddc11c407ee2d5f3b60a53f5ff7639b97e123197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:46 +0000
Subject: [PATCH 034/142] fix: cutting references, node types and extra
 metadata from xml removes every matching node

---
 resqpy/olio/xml_et.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/resqpy/olio/xml_et.py b/resqpy/olio/xml_et.py
index 2e2d5a0..5005207 100644
--- a/resqpy/olio/xml_et.py
+++ b/resqpy/olio/xml_et.py
@@ -274,7 +274,7 @@ def cut_obj_references(root, uuids_to_be_cut):
 
     if root is None or not uuids_to_be_cut:
         return
-    for child in root:
+    for child in list(root):
         if node_type(child) == 'DataObjectReference':
             referred_uuid = bu.uuid_from_string(find_tag_text(child, 'UUID', must_exist = True))
             for cut_uuid in uuids_to_be_cut:
@@ -290,9 +290,9 @@ def cut_nodes_of_types(root, types_to_be_cut):
 
     if root is None or not types_to_be_cut:
         return
-    for child in root:
+    for child in list(root):
         if node_type(child) in types_to_be_cut:
-            root.remove(child)  # hope this doesn't mess up the iteration
+            root.remove(child)
         else:
             cut_nodes_of_types(child, types_to_be_cut)
 
@@ -300,7 +300,7 @@ def cut_nodes_of_types(root, types_to_be_cut):
 def cut_extra_metadata(root):
     """Removes all the extra metadata children under root node."""
 
-    for child in root:
+    for child in list(root):
         if match(child.tag, 'ExtraMetadata'):
             root.remove(child)
 
-- 
2.43.0


From 338ebb04eccc802095c953fec7224fb35518fb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:46 +0000
Subject: [PATCH 035/142] fix: repoint hdf5 references of an imported part when
 its datasets are already in the target hdf5 file

---
 resqpy/model/_forestry.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/resqpy/model/_forestry.py b/resqpy/model/_forestry.py
index a4d4b71..b66d281 100644
--- a/resqpy/model/_forestry.py
+++ b/resqpy/model/_forestry.py
@@ -576,9 +576,10 @@ def _copy_part_from_other_model(model,
         if hdf5_copy_needed:
             # copy hdf5 data
             hdf5_internal_paths = [node.text for node in rqet.list_of_descendant_tag(other_root, 'PathInHdfFile')]
-            hdf5_count = whdf5.copy_h5_path_list(other_h5_file_name, self_h5_file_name, hdf5_internal_paths, mode = 'a')
+            whdf5.copy_h5_path_list(other_h5_file_name, self_h5_file_name, hdf5_internal_paths, mode = 'a')
             # create relationship with hdf5 if needed and modify h5 file uuid in xml references
-            _copy_part_hdf5_setup(model, hdf5_count, h5_uuid, root_node)
+            # NB. this is also needed when the datasets were already present in the target hdf5 file
+            _copy_part_hdf5_setup(model, len(hdf5_internal_paths), h5_uuid, root_node)
         # NB. assumes ext part is already established when sharing a common hdf5 file
 
         # cut references to objects to be excluded
-- 
2.43.0


From 24dcf763eb37751c05551afa30340abc44486668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:35 +0000
Subject: [PATCH 036/142] fix: redirect every reference to a consolidated part

---
 resqpy/model/_forestry.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/resqpy/model/_forestry.py b/resqpy/model/_forestry.py
index b66d281..5947575 100644
--- a/resqpy/model/_forestry.py
+++ b/resqpy/model/_forestry.py
@@ -694,11 +694,12 @@ def _copy_referenced_parts(model, other_model, realization, consolidate, force,
                 for ref_node in ref_nodes:
                     uuid_node = rqet.find_tag(ref_node, 'UUID')
                     uuid_int = bu.uuid_from_string(uuid_node.text).int
-                    reference_node_dict[uuid_int] = uuid_node
-            uuid_node = reference_node_dict[ref_uuid_int]
-            uuid_node.text = str(bu.uuid_from_int(resident_uuid_int))
-            reference_node_dict.pop(ref_uuid_int)
-            reference_node_dict[resident_uuid_int] = uuid_node
+                    reference_node_dict.setdefault(uuid_int, []).append(uuid_node)
+            # NB. there may be more than one node holding a reference to the same uuid
+            uuid_nodes = reference_node_dict.pop(ref_uuid_int)
+            for uuid_node in uuid_nodes:
+                uuid_node.text = str(bu.uuid_from_int(resident_uuid_int))
+            reference_node_dict.setdefault(resident_uuid_int, []).extend(uuid_nodes)
 
 
 def _copy_relationships_for_present_targets(model, other_model, consolidate, force, resident_uuid, root_node):
-- 
2.43.0


From 01cc159ecc79e1a9cc49bc646c61ebc88f344747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:35 +0000
Subject: [PATCH 037/142] fix: relate grid connection sets to the given grid

---
 resqpy/fault/_gcs_functions.py       | 2 +-
 resqpy/fault/_grid_connection_set.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/fault/_gcs_functions.py b/resqpy/fault/_gcs_functions.py
index 0d54abb..a548154 100644
--- a/resqpy/fault/_gcs_functions.py
+++ b/resqpy/fault/_gcs_functions.py
@@ -534,7 +534,7 @@ def _make_k_gcs_from_cip_list(grid, cip_list, feature_name):
     if count == 0:
         return None
 
-    pcs = GridConnectionSet(grid.model)
+    pcs = GridConnectionSet(grid.model, grid = grid)
     pcs.grid_list = [grid]
     pcs.count = count
     pcs.grid_index_pairs = np.zeros((count, 2), dtype = int)
diff --git a/resqpy/fault/_grid_connection_set.py b/resqpy/fault/_grid_connection_set.py
index d094452..dc38e1e 100644
--- a/resqpy/fault/_grid_connection_set.py
+++ b/resqpy/fault/_grid_connection_set.py
@@ -252,7 +252,7 @@ class GridConnectionSet(BaseResqpy):
         """
         assert isinstance(grid, grr.Grid)
 
-        gcs = cls(grid.model, title = title, originator = originator, extra_metadata = extra_metadata)
+        gcs = cls(grid.model, grid = grid, title = title, originator = originator, extra_metadata = extra_metadata)
 
         gcs._sort_out_organizing_objects(feature_type, feature_name, create_organizing_objects_where_needed)
 
-- 
2.43.0


From 6524a2efc8c398ec902f20cc80c1447ed7f86b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:06 +0000
Subject: [PATCH 038/142] fix: write each fault row with its own
 transmissibility multiplier

---
 resqpy/fault/_grid_connection_set.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/resqpy/fault/_grid_connection_set.py b/resqpy/fault/_grid_connection_set.py
index dc38e1e..4865b44 100644
--- a/resqpy/fault/_grid_connection_set.py
+++ b/resqpy/fault/_grid_connection_set.py
@@ -1580,13 +1580,14 @@ class GridConnectionSet(BaseResqpy):
                     tmult_values = feat_mult_array[msi]
                     del both
                     k = None
-                    i = j = k2 = axis = polarity = None  # only needed to placate flake8 which whinges incorrectly otherwise
+                    i = j = k2 = axis = polarity = tmult = None  # only needed to placate flake8 which whinges incorrectly otherwise
                     for row in range(cell_indices.shape[0]):
                         kp, jp, ip = cell_indices[row]
                         axis_p, polarity_p = face_indices[row]
-                        tmult = tmult_values[row]
+                        tmult_p = tmult_values[row]
                         if k is not None:
-                            if axis_p != axis or polarity_p != polarity or ip != i or jp != j or kp != k2 + 1:
+                            if (axis_p != axis or polarity_p != polarity or ip != i or jp != j or kp != k2 + 1 or
+                                    tmult_p != tmult):
                                 write_row(self, fp, feature_name, i, j, k, k2, axis, polarity, tmult)
                                 k = None
                             else:
@@ -1597,6 +1598,7 @@ class GridConnectionSet(BaseResqpy):
                             k = k2 = kp
                             axis = axis_p
                             polarity = polarity_p
+                            tmult = tmult_p
                     if k is not None:
                         write_row(self, fp, feature_name, i, j, k, k2, axis, polarity, tmult)
 
-- 
2.43.0


From 9f15a3f440cad38e2c1fb634207d8649e4922cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:07 +0000
Subject: [PATCH 039/142] fix: inherit features already listed and drop unused
 features correctly

---
 resqpy/fault/_grid_connection_set.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/resqpy/fault/_grid_connection_set.py b/resqpy/fault/_grid_connection_set.py
index 4865b44..975aced 100644
--- a/resqpy/fault/_grid_connection_set.py
+++ b/resqpy/fault/_grid_connection_set.py
@@ -1975,7 +1975,7 @@ class GridConnectionSet(BaseResqpy):
         for featured_triplet in featured.feature_list:
             featured_uuid = bu.uuid_from_string(featured_triplet[1])  # bu call probably not needed
             if featured_uuid in feature_uuid_list:
-                featured_index_map.append(feature_uuid_list.index[featured_uuid])
+                featured_index_map.append(feature_uuid_list.index(featured_uuid))
             else:
                 featured_index_map.append(len(self.feature_list))
                 self.feature_list.append(featured_triplet)
@@ -2019,12 +2019,9 @@ class GridConnectionSet(BaseResqpy):
         for fi in range(original_feature_count):
             if fi not in self.feature_indices:
                 removals.append(fi)
-        reduction = len(removals)
-        if reduction > 0:
-            while len(removals) > 0:
-                self.feature_list.pop(removals[-1])
-                removals.pop()
-            self.feature_indices[:] -= reduction
+        for fi in reversed(removals):
+            self.feature_list.pop(fi)
+            self.feature_indices[self.feature_indices > fi] -= 1
 
     def compact_indices(self):
         """Returns numpy int array of shape (count, 2) combining each cell index, face index into a single integer."""
-- 
2.43.0


From f88409688fadc58aa18c20ef4358389bc13b9f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:07 +0000
Subject: [PATCH 040/142] fix: allow open ended layer ranges when filtering a
 connection set

---
 resqpy/fault/_grid_connection_set.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/fault/_grid_connection_set.py b/resqpy/fault/_grid_connection_set.py
index 975aced..9b72072 100644
--- a/resqpy/fault/_grid_connection_set.py
+++ b/resqpy/fault/_grid_connection_set.py
@@ -846,9 +846,9 @@ class GridConnectionSet(BaseResqpy):
         self.cache_arrays()
         assert len(self.grid_list) == 1, 'attempt to filter multi-grid connection set by layer range'
         grid = self.grid_list[0]
-        if min_k0 <= 0:
+        if min_k0 is not None and min_k0 <= 0:
             min_k0 = None
-        if max_k0 >= grid.extent_kji[0] - 1:
+        if max_k0 is not None and max_k0 >= grid.extent_kji[0] - 1:
             max_k0 = None
         if min_k0 is None and max_k0 is None:
             dupe = GridConnectionSet(self.model, grid = grid)
-- 
2.43.0


From ed82c71e13b1a576d24e0592392f2d171bdbce18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:07 +0000
Subject: [PATCH 041/142] fix: load faces with existing interpretations or
 external faces

---
 resqpy/fault/_gcs_functions.py       | 2 +-
 resqpy/fault/_grid_connection_set.py | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/resqpy/fault/_gcs_functions.py b/resqpy/fault/_gcs_functions.py
index a548154..41ae1a1 100644
--- a/resqpy/fault/_gcs_functions.py
+++ b/resqpy/fault/_gcs_functions.py
@@ -519,7 +519,7 @@ def remove_external_faces_from_faces_df(faces, extent_kji, remove_all_k_faces =
         if remove_all_k_faces and f[0] == 'K':
             continue
         filtered.append(i)
-    return faces.loc[filtered]
+    return faces.iloc[filtered]
 
 
 def _make_k_gcs_from_cip_list(grid, cip_list, feature_name):
diff --git a/resqpy/fault/_grid_connection_set.py b/resqpy/fault/_grid_connection_set.py
index 9b72072..c62737c 100644
--- a/resqpy/fault/_grid_connection_set.py
+++ b/resqpy/fault/_grid_connection_set.py
@@ -719,6 +719,7 @@ class GridConnectionSet(BaseResqpy):
         const_mult = True
         for fi_part in fi_parts_list:
             fi_dict[self.model.title_for_part(fi_part).split()[0].lower()] = self.model.uuid_for_part(fi_part)
+        tbf_parts_list = []
         if create_organizing_objects_where_needed:
             tbf_parts_list = self.model.parts_list_of_type('TectonicBoundaryFeature')
 
@@ -2082,11 +2083,11 @@ class GridConnectionSet(BaseResqpy):
             if name.lower() in fault_tmult_dict:
                 fault_dict_multiplier = float(fault_tmult_dict[name.lower()])
         # fetch uuid for fault interpretation object
+        fi_root = None
         if name.lower() in fi_dict:
             fi_uuid = fi_dict[name.lower()]
         elif create_organizing_objects_where_needed:
             tbf = None
-            fi_root = None
             for tbf_part in tbf_parts_list:
                 if name.lower() == self.model.title_for_part(tbf_part).split()[0].lower():
                     tbf = rqo.TectonicBoundaryFeature(self.model, uuid = self.model.uuid_for_part(tbf_part))
-- 
2.43.0


From c6f87be736d10c784dc1c803db83531f210d686c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:07 +0000
Subject: [PATCH 042/142] fix: treat baffle property as a mask in grid face
 arrays

---
 resqpy/fault/_grid_connection_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/fault/_grid_connection_set.py b/resqpy/fault/_grid_connection_set.py
index c62737c..d46964c 100644
--- a/resqpy/fault/_grid_connection_set.py
+++ b/resqpy/fault/_grid_connection_set.py
@@ -2239,7 +2239,7 @@ class GridConnectionSet(BaseResqpy):
 
         baffle_mask = None
         if baffle_uuid is not None:
-            baffle_mask = rqp.Property(self.model, uuid = baffle_uuid).array_ref()
+            baffle_mask = rqp.Property(self.model, uuid = baffle_uuid).array_ref(dtype = bool)
             assert baffle_mask is not None
 
         # note that following arrays include external faces, in line with grid properties for 'faces'
-- 
2.43.0


From e77dc944bee8299aa222057cf2108f2b8983bba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:07 +0000
Subject: [PATCH 043/142] fix: replace a NaN null value for discrete column
 properties

---
 resqpy/fault/_gcs_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/fault/_gcs_functions.py b/resqpy/fault/_gcs_functions.py
index 41ae1a1..af670c3 100644
--- a/resqpy/fault/_gcs_functions.py
+++ b/resqpy/fault/_gcs_functions.py
@@ -286,7 +286,7 @@ def grid_columns_property_from_gcs_property(model,
             multiple_handling = 'mean'
     else:
         dtype = int
-        if null_value == np.nan:
+        if null_value is None or np.isnan(null_value):
             null_value = -1
         elif type(null_value) is float:
             null_value = int(null_value)
-- 
2.43.0


From 6fe7e960a400cd9173b7cb0435dd5904ae232634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:07 +0000
Subject: [PATCH 044/142] fix: keep properties in step with sorted face indices
 without duplicates

---
 resqpy/fault/_grid_connection_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/fault/_grid_connection_set.py b/resqpy/fault/_grid_connection_set.py
index d46964c..4914998 100644
--- a/resqpy/fault/_grid_connection_set.py
+++ b/resqpy/fault/_grid_connection_set.py
@@ -2317,7 +2317,7 @@ def _sort_and_remove_duplicates(a, props = None):
     m = np.empty(a.size, dtype = bool)
     m[0] = True
     m[1:] = (a[1:] != a[:-1])
-    if np.all(m):
+    if np.all(m) and no_props:
         return a
     if not no_props:
         for i in range(len(props)):
-- 
2.43.0


From e17768de9ea21e64e88d4618f9fb5b974f63e6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:07 +0000
Subject: [PATCH 045/142] fix: load connection set arrays before masking or
 compacting them

---
 resqpy/fault/_grid_connection_set.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/resqpy/fault/_grid_connection_set.py b/resqpy/fault/_grid_connection_set.py
index 4914998..8c631bc 100644
--- a/resqpy/fault/_grid_connection_set.py
+++ b/resqpy/fault/_grid_connection_set.py
@@ -887,6 +887,7 @@ class GridConnectionSet(BaseResqpy):
            select equivalent entries from associated properties
         """
 
+        self.cache_arrays()
         assert len(self.grid_list) == 1, 'attempt to filter multi-grid connection set by cell mask'
         grid = self.grid_list[0]
         flat_extent = grid.cell_count()
@@ -1969,6 +1970,7 @@ class GridConnectionSet(BaseResqpy):
         assert tuple(self.grid_list[0].extent_kji) == tuple(featured.grid_list[0].extent_kji)
 
         # build combined feature list and mapping of feature indices
+        self.cache_arrays()
         featured.cache_arrays()
         original_feature_count = len(self.feature_list)
         featured_index_map = []  # maps from feature index in featured to extended feature list in this set
@@ -2026,6 +2028,8 @@ class GridConnectionSet(BaseResqpy):
 
     def compact_indices(self):
         """Returns numpy int array of shape (count, 2) combining each cell index, face index into a single integer."""
+        if (self.cell_index_pairs is None or self.face_index_pairs is None) and self.root is not None:
+            self.cache_arrays()
         if self.cell_index_pairs is None or self.face_index_pairs is None:
             return None
         null_mask = np.logical_or(self.cell_index_pairs == self.cell_index_pairs_null_value,
-- 
2.43.0


From 0a4701540e3989ca07dcd11598c8f490f42f41de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:07 +0000
Subject: [PATCH 046/142] fix: find a feature by its exact name in preference
 to a longer name

---
 resqpy/fault/_grid_connection_set.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/resqpy/fault/_grid_connection_set.py b/resqpy/fault/_grid_connection_set.py
index 8c631bc..a8f76de 100644
--- a/resqpy/fault/_grid_connection_set.py
+++ b/resqpy/fault/_grid_connection_set.py
@@ -1061,6 +1061,13 @@ class GridConnectionSet(BaseResqpy):
         if self.feature_list is None:
             return (None, None)
         # the protocol adopted here is that the citation title must start with the fault name
+        # (with preference given to features for which the whole title, or the whole first word, matches)
+        for (index, (_, uuid, title)) in enumerate(self.feature_list):
+            if title == fault_name:
+                return (index, uuid)
+        for (index, (_, uuid, title)) in enumerate(self.feature_list):
+            if title.split()[:1] == [fault_name]:
+                return (index, uuid)
         index = 0
         for (_, uuid, title) in self.feature_list:
             if title.startswith(fault_name):
-- 
2.43.0


From 876d56134ce0fb1340945dbf447f3cf9f36a3ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:07 +0000
Subject: [PATCH 047/142] fix: sample whole elements of points and multi count
 properties

---
 resqpy/property/property_collection.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/resqpy/property/property_collection.py b/resqpy/property/property_collection.py
index 83aaf95..ed469ea 100644
--- a/resqpy/property/property_collection.py
+++ b/resqpy/property/property_collection.py
@@ -414,7 +414,10 @@ class PropertyCollection():
             target_shape = self.supporting_shape(indexable_element = other.indexable_for_part(part),
                                                  direction = pcga._part_direction(other, part))
             assert np.prod(target_shape) == flattened_indices.size
-            a = other.cached_part_array_ref(part).flatten()[flattened_indices].reshape(target_shape)
+            # each element may have more than one value (count) and/or be a point
+            per_element = ((info[5],) if info[5] > 1 else ()) + ((3,) if info[21] else ())
+            a = other.cached_part_array_ref(part).reshape((-1,) + per_element)[flattened_indices]
+            a = a.reshape(tuple(target_shape) + per_element)
             self.add_cached_array_to_imported_list(a,
                                                    source,
                                                    info[10],
-- 
2.43.0


From d0a8a91cc843c74e62f7e21d460d2ac02bf601fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:53 +0000
Subject: [PATCH 048/142] fix: find every pinchout connection, and none where a
 K gap intervenes

---
 resqpy/fault/_gcs_functions.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/resqpy/fault/_gcs_functions.py b/resqpy/fault/_gcs_functions.py
index af670c3..9f954e0 100644
--- a/resqpy/fault/_gcs_functions.py
+++ b/resqpy/fault/_gcs_functions.py
@@ -51,20 +51,16 @@ def pinchout_connection_set(grid, skip_inactive = True, feature_name = 'pinchout
                 if ka >= grid.nk - 1:
                     break
                 # ka now in non-pinched out cell above pinchout
-                if (skip_inactive and dead[ka, j, i]) or (grid.k_gaps and grid.k_gap_after_array[ka]):
-                    ka += 1
-                    continue
                 kb = ka + 1
                 while kb < grid.nk and po[kb, j, i]:
                     kb += 1
                 if kb >= grid.nk:
                     break
-                if skip_inactive and dead[kb, j, i]:
-                    ka = kb + 1
-                    continue
-                # kb now beneath pinchout
-                cip_list.append((grid.natural_cell_index((ka, j, i)), grid.natural_cell_index((kb, j, i))))
-                ka = kb + 1
+                # kb now beneath pinchout; pair not connected if there is a K gap anywhere between the two cells
+                if not ((skip_inactive and (dead[ka, j, i] or dead[kb, j, i])) or
+                        (grid.k_gaps and np.any(grid.k_gap_after_array[ka:kb]))):
+                    cip_list.append((grid.natural_cell_index((ka, j, i)), grid.natural_cell_index((kb, j, i))))
+                ka = kb  # the cell below one pinchout might also be the cell above another
 
     log.debug(f'{len(cip_list)} pinchout connections found')
 
-- 
2.43.0


From 8ac13759410c932462ad1cb160373f471a9a5527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:53 +0000
Subject: [PATCH 049/142] fix: allow for columns without geometry next to a
 fault

---
 resqpy/olio/transmission.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/olio/transmission.py b/resqpy/olio/transmission.py
index 4704c3f..892324e 100644
--- a/resqpy/olio/transmission.py
+++ b/resqpy/olio/transmission.py
@@ -952,7 +952,7 @@ def fault_connection_set(grid, skip_inactive = False):
         pav = 0.5 * (pv[pam] + pv[pap])  # mean pillar unit vector for -I side of J face
         pbv = 0.5 * (pv[pbm] + pv[pbp])  # mean pillar unit vector for +I side of J face
         if all_nan(p[:, pam, :]) or all_nan(p[:, pap, :]) or all_nan(p[:, pbm, :]) or all_nan(p[:, pbp, :]):
-            return []
+            return [], (0, 0, 1.0, 0.0)
         o = np.nanmin(p[:, pam, :], axis = 0)  # arbitrary local origin
         oe = np.expand_dims(o, 0)
         paml = p[:, pam, :] - oe  # pillar points translated to local space
-- 
2.43.0


From e9a75e0b1dd896ec947d90d9675ae565c36120d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:00 +0000
Subject: [PATCH 050/142] fix: compute projected triangle areas robustly

---
 resqpy/olio/transmission.py | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/resqpy/olio/transmission.py b/resqpy/olio/transmission.py
index 892324e..31f492b 100644
--- a/resqpy/olio/transmission.py
+++ b/resqpy/olio/transmission.py
@@ -1165,17 +1165,6 @@ def projected_tri_area(pa, pb, pc):
 
     assert pa.shape == pb.shape == pc.shape and pa.shape[-1] == 3
 
-    area = np.empty(pa.shape)
-    for xyz in range(3):
-        xyz_0 = (xyz + 1) % 3
-        xyz_1 = (xyz + 2) % 3
-        pap = np.stack((pa[..., xyz_0], pa[..., xyz_1]), axis = -1)  # points projected onto 2D
-        pbp = np.stack((pb[..., xyz_0], pb[..., xyz_1]), axis = -1)
-        pcp = np.stack((pc[..., xyz_0], pc[..., xyz_1]), axis = -1)
-        lap = vec.naive_lengths(pbp - pap)  # 2D triangle edge vector lengths
-        lbp = vec.naive_lengths(pcp - pbp)
-        lcp = vec.naive_lengths(pap - pcp)
-        s = 0.5 * (lap + lbp + lcp)  # 2D triangle semi perimeter lengths
-        area[..., xyz] = np.sqrt(s * (s - lap) * (s - lbp) * (s - lcp))
-
-    return area
+    # components of half the cross product are the (signed) projected areas; note that this formulation remains
+    # well behaved when a triangle projects to a line
+    return 0.5 * np.abs(np.cross(pb - pa, pc - pa))
-- 
2.43.0


From cafa50a9abc58e3ea7a68008b7a118f48726d59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:00 +0000
Subject: [PATCH 051/142] fix: slice J face areas correctly for unsplit grids
 with K gaps

---
 resqpy/olio/transmission.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/olio/transmission.py b/resqpy/olio/transmission.py
index 31f492b..ae94ced 100644
--- a/resqpy/olio/transmission.py
+++ b/resqpy/olio/transmission.py
@@ -290,8 +290,8 @@ def half_cell_t_irregular(grid,
                 if grid.k_gaps:
                     half_axis_vectors = 0.125 * np.abs(edge_vectors[1][kp][:, :, 1:] + edge_vectors[1][kp][:, :, :-1] +
                                                        edge_vectors[1][km][:, :, 1:] + edge_vectors[1][km][:, :, :-1])
-                    face_areas = (projected_tri_area(p[km][:, :-1], p[km][:, :, 1:], p[kp][:, :, 1:]) +
-                                  projected_tri_area(p[km][:, :-1], p[kp][:, :, 1:], p[kp][:, :, :-1]))
+                    face_areas = (projected_tri_area(p[km][:, :, :-1], p[km][:, :, 1:], p[kp][:, :, 1:]) +
+                                  projected_tri_area(p[km][:, :, :-1], p[kp][:, :, 1:], p[kp][:, :, :-1]))
                 else:
                     half_axis_vectors = 0.125 * np.abs(edge_vectors[1][1:, :, 1:] + edge_vectors[1][1:, :, :-1] +
                                                        edge_vectors[1][:-1, :, 1:] + edge_vectors[1][:-1, :, :-1])
-- 
2.43.0


From be9961611400013570bf7825bbb0d79875be500b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:00 +0000
Subject: [PATCH 052/142] fix: use the second face of each pair for its own
 half cell transmissibility

---
 resqpy/fault/_grid_connection_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/fault/_grid_connection_set.py b/resqpy/fault/_grid_connection_set.py
index a8f76de..97eae27 100644
--- a/resqpy/fault/_grid_connection_set.py
+++ b/resqpy/fault/_grid_connection_set.py
@@ -1907,7 +1907,7 @@ class GridConnectionSet(BaseResqpy):
         gi_m = gi_p = 0  # used below in single grid case
         for e in range(count):
             axis_m, polarity_m = self.face_index_inverse_map[self.face_index_pairs[e, 0]]
-            axis_p, polarity_p = self.face_index_inverse_map[self.face_index_pairs[e, 0]]
+            axis_p, polarity_p = self.face_index_inverse_map[self.face_index_pairs[e, 1]]
             if single_grid:
                 kji0_m = kji0[e, 0]
                 kji0_p = kji0[e, 1]
-- 
2.43.0


From 1dafcc9ae596e4cdf4973ef620b1aa0aa8ec0df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:00 +0000
Subject: [PATCH 053/142] fix: zero transmissibility for connections with NaN
 half cell values

---
 resqpy/fault/_grid_connection_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/fault/_grid_connection_set.py b/resqpy/fault/_grid_connection_set.py
index 97eae27..458bfd0 100644
--- a/resqpy/fault/_grid_connection_set.py
+++ b/resqpy/fault/_grid_connection_set.py
@@ -1918,7 +1918,7 @@ class GridConnectionSet(BaseResqpy):
                 kji0_p = self.grid_list[gi_p].denaturalized_cell_index(self.cell_index_pairs[e, 1])
             half_t_m = half_t_list[gi_m][kji0_m[0], kji0_m[1], kji0_m[2], axis_m, polarity_m]
             half_t_p = half_t_list[gi_p][kji0_p[0], kji0_p[1], kji0_p[2], axis_p, polarity_p]
-            if half_t_m < tol_half_t or half_t_p < tol_half_t:
+            if not (half_t_m >= tol_half_t and half_t_p >= tol_half_t):  # note: includes NaN
                 continue
             if fa is not None:
                 fa_m, fa_p = fa[e]
-- 
2.43.0


From 61fc6b8e01b5d0cda292aa6b065d8b011c70cf77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:00 +0000
Subject: [PATCH 054/142] fix: recompute connection set transmissibilities when
 the set is rebuilt

---
 resqpy/grid/_connection_sets.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/resqpy/grid/_connection_sets.py b/resqpy/grid/_connection_sets.py
index 4325d7c..8aabe7d 100644
--- a/resqpy/grid/_connection_sets.py
+++ b/resqpy/grid/_connection_sets.py
@@ -40,6 +40,8 @@ def fault_connection_set(grid,
     if not hasattr(grid, 'fgcs') or grid.fgcs_skip_inactive != skip_inactive:
         grid.fgcs, grid.fgcs_fractional_area = rqtr.fault_connection_set(grid, skip_inactive = skip_inactive)
         grid.fgcs_skip_inactive = skip_inactive
+        if hasattr(grid, 'array_fgcs_transmissibility'):  # no longer applicable
+            delattr(grid, 'array_fgcs_transmissibility')
 
     if grid.fgcs is None:
         return None, None
@@ -105,6 +107,8 @@ def pinchout_connection_set(grid,
     if not hasattr(grid, 'pgcs') or grid.pgcs_skip_inactive != skip_inactive:
         grid.pgcs = rqf.pinchout_connection_set(grid, skip_inactive = skip_inactive)
         grid.pgcs_skip_inactive = skip_inactive
+        if hasattr(grid, 'array_pgcs_transmissibility'):  # no longer applicable
+            delattr(grid, 'array_pgcs_transmissibility')
 
     if grid.pgcs is None:
         return None, None
@@ -172,6 +176,8 @@ def k_gap_connection_set(grid,
     if not hasattr(grid, 'kgcs') or grid.kgcs_skip_inactive != skip_inactive:
         grid.kgcs = rqf.k_gap_connection_set(grid, skip_inactive = skip_inactive, tolerance = tolerance)
         grid.kgcs_skip_inactive = skip_inactive
+        if hasattr(grid, 'array_kgcs_transmissibility'):  # no longer applicable
+            delattr(grid, 'array_kgcs_transmissibility')
 
     if grid.kgcs is None:
         return None, None
-- 
2.43.0


From f69ef63750fbd3902d92efc2e4762d46f34c69eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:01 +0000
Subject: [PATCH 055/142] fix: allow transmissibility calculation without use
 of tr properties

---
 resqpy/grid/_transmissibility.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/grid/_transmissibility.py b/resqpy/grid/_transmissibility.py
index 1c3bf3c..fee553b 100644
--- a/resqpy/grid/_transmissibility.py
+++ b/resqpy/grid/_transmissibility.py
@@ -74,9 +74,9 @@ def transmissibility(grid, tolerance = 1.0e-6, use_tr_properties = True, realiza
         if hasattr(grid, 'array_i_transmissibility') and grid.array_i_transmissibility is not None:
             i_tr = grid.array_i_transmissibility
 
-    if use_tr_properties and (k_tr is None or j_tr is None or i_tr is None):
+    pc = grid.extract_property_collection()
 
-        pc = grid.extract_property_collection()
+    if use_tr_properties and (k_tr is None or j_tr is None or i_tr is None):
 
         composite_tr = pc.single_array_ref(property_kind = 'transmissibility',
                                            realization = realization,
-- 
2.43.0


From 70f463f0effe8f6ea9ee9ef24f5e6b6b2bb10d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:01 +0000
Subject: [PATCH 056/142] fix: use internal faces of modifier arrays in
 transmissibility calculation

---
 resqpy/grid/_transmissibility.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/resqpy/grid/_transmissibility.py b/resqpy/grid/_transmissibility.py
index fee553b..4d08f6b 100644
--- a/resqpy/grid/_transmissibility.py
+++ b/resqpy/grid/_transmissibility.py
@@ -209,6 +209,7 @@ def __set_i_transmissibility(grid, half_t, i_tr, modifier_mode, pc, realization,
         else:
             assert tr_mult.shape == (grid.nk, grid.nj, grid.ni + 1)
             internal_zero_mask = np.logical_or(internal_zero_mask, np.isnan(tr_mult[:, :, 1:-1]))
+            tr_mult = tr_mult[:, :, 1:-1]  # internal faces only
     if tr_mult is None:
         tr_mult = 1.0
     tr_abs_r = 0.0
@@ -223,7 +224,8 @@ def __set_i_transmissibility(grid, half_t, i_tr, modifier_mode, pc, realization,
         if tr_abs is not None:
             log.debug('applying absolute I face transmissibility modification')
             assert tr_abs.shape == (grid.nk, grid.nj, grid.ni + 1)
-            internal_zero_mask = np.logical_or(internal_zero_mask, tr_abs[:, :, 1:-1] <= 0.0)
+            tr_abs = tr_abs[:, :, 1:-1]  # internal faces only
+            internal_zero_mask = np.logical_or(internal_zero_mask, tr_abs <= 0.0)
             tr_abs_r = np.where(np.logical_or(np.isinf(tr_abs), np.isnan(tr_abs)), 0.0, 1.0 / tr_abs)
     i_tr[:, :, 1:-1] = np.where(internal_zero_mask, 0.0, tr_mult / ((1.0 / slice_a) + tr_abs_r + (1.0 / slice_b)))
     return i_tr
@@ -262,6 +264,7 @@ def __set_j_transmissibility(grid, half_t, j_tr, modifier_mode, pc, realization,
         else:
             assert tr_mult.shape == (grid.nk, grid.nj + 1, grid.ni)
             internal_zero_mask = np.logical_or(internal_zero_mask, np.isnan(tr_mult[:, 1:-1, :]))
+            tr_mult = tr_mult[:, 1:-1, :]  # internal faces only
     if tr_mult is None:
         tr_mult = 1.0
     tr_abs_r = 0.0
@@ -276,7 +279,8 @@ def __set_j_transmissibility(grid, half_t, j_tr, modifier_mode, pc, realization,
         if tr_abs is not None:
             log.debug('applying absolute J face transmissibility modification')
             assert tr_abs.shape == (grid.nk, grid.nj + 1, grid.ni)
-            internal_zero_mask = np.logical_or(internal_zero_mask, tr_abs[:, 1:-1, :] <= 0.0)
+            tr_abs = tr_abs[:, 1:-1, :]  # internal faces only
+            internal_zero_mask = np.logical_or(internal_zero_mask, tr_abs <= 0.0)
             tr_abs_r = np.where(np.logical_or(np.isinf(tr_abs), np.isnan(tr_abs)), 0.0, 1.0 / tr_abs)
     j_tr[:, 1:-1, :] = np.where(internal_zero_mask, 0.0, tr_mult / ((1.0 / slice_a) + tr_abs_r + (1.0 / slice_b)))
     if realization is None:
@@ -314,6 +318,7 @@ def __set_k_transmissibility(grid, half_t, k_tr, modifier_mode, pc, realization,
         if tr_mult is not None:
             assert tr_mult.shape == (grid.nk + 1, grid.nj, grid.ni)
             internal_zero_mask = np.logical_or(internal_zero_mask, np.isnan(tr_mult[1:-1, :, :]))
+            tr_mult = tr_mult[1:-1, :, :]  # internal faces only
     if tr_mult is None:
         tr_mult = 1.0
     tr_abs_r = 0.0
@@ -342,7 +347,8 @@ def __set_k_transmissibility(grid, half_t, k_tr, modifier_mode, pc, realization,
         if tr_abs is not None:
             log.debug('applying absolute K face transmissibility modification')
             assert tr_abs.shape == (grid.nk + 1, grid.nj, grid.ni)
-            internal_zero_mask = np.logical_or(internal_zero_mask, tr_abs[1:-1, :, :] <= 0.0)
+            tr_abs = tr_abs[1:-1, :, :]  # internal faces only
+            internal_zero_mask = np.logical_or(internal_zero_mask, tr_abs <= 0.0)
             tr_abs_r = np.where(np.logical_or(np.isinf(tr_abs), np.isnan(tr_abs)), 0.0, 1.0 / tr_abs)
     k_tr[1:-1, :, :] = np.where(internal_zero_mask, 0.0, tr_mult / ((1.0 / slice_a) + tr_abs_r + (1.0 / slice_b)))
     if realization is None:
-- 
2.43.0


From 816bbb27e6fdb703f04b9a6ce70fc539d29502a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:01 +0000
Subject: [PATCH 057/142] fix: arrange faces per cell multipliers to match half
 cell transmissibilities

---
 resqpy/grid/_transmissibility.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resqpy/grid/_transmissibility.py b/resqpy/grid/_transmissibility.py
index 4d08f6b..9975721 100644
--- a/resqpy/grid/_transmissibility.py
+++ b/resqpy/grid/_transmissibility.py
@@ -173,6 +173,8 @@ def __faces_per_cell_multiplier(grid, half_t, pc, realization):
         log.warning('no faces per cell transmissibility multiplier found when calculating transmissibilities')
     else:
         log.debug('applying faces per cell transmissibility multipliers')
+        assert half_t_mult.shape == (grid.nk, grid.nj, grid.ni, 6)
+        half_t_mult = pc.combobulated_face_array(half_t_mult)
         half_t = np.where(np.isnan(half_t_mult), half_t, half_t * half_t_mult)
     return half_t, pc
 
-- 
2.43.0


From 6d15391625bc8eb211709d9cf555023af5306a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:01 +0000
Subject: [PATCH 058/142] fix: use of stored half cell transmissibility
 property

---
 resqpy/grid/_transmissibility.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resqpy/grid/_transmissibility.py b/resqpy/grid/_transmissibility.py
index 9975721..b38c405 100644
--- a/resqpy/grid/_transmissibility.py
+++ b/resqpy/grid/_transmissibility.py
@@ -390,15 +390,15 @@ def half_cell_transmissibility(grid, use_property = True, realization = None, to
     half_t = None
 
     if use_property:
-        pc = grid.property_collection
+        pc = grid.extract_property_collection()
         half_t_resqml = pc.single_array_ref(property_kind = 'transmissibility',
                                             realization = realization,
                                             continuous = True,
                                             count = 1,
                                             indexable = 'faces per cell')
-        if half_t_resqml:
+        if half_t_resqml is not None:
             assert half_t_resqml.shape == (grid.nk, grid.nj, grid.ni, 6)
-            half_t = pc.combobulate(half_t_resqml)
+            half_t = pc.combobulated_face_array(half_t_resqml)
 
     if half_t is None:
         # note: properties must be identifiable in property_collection
-- 
2.43.0


From d210935665ef394cc7f619eb017ee95644c99de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:01 +0000
Subject: [PATCH 059/142] fix: use of stored half cell transmissibility for
 vertical prism grid

---
 resqpy/unstructured/_prism_grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/unstructured/_prism_grid.py b/resqpy/unstructured/_prism_grid.py
index 7551487..8b87443 100644
--- a/resqpy/unstructured/_prism_grid.py
+++ b/resqpy/unstructured/_prism_grid.py
@@ -613,7 +613,7 @@ class VerticalPrismGrid(PrismGrid):
                                          continuous = True,
                                          count = 1,
                                          indexable = 'faces per cell')
-            if half_t:
+            if half_t is not None:
                 assert half_t.size == 5 * self.cell_count
                 half_t = half_t.reshape(self.cell_count, 5)
 
-- 
2.43.0


From 6c759529c3d0a0dcc01afed6e84c70173c09fc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:01 +0000
Subject: [PATCH 060/142] fix: match order of vertical faces in prism half cell
 transmissibility

---
 resqpy/olio/transmission.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resqpy/olio/transmission.py b/resqpy/olio/transmission.py
index ae94ced..db5c696 100644
--- a/resqpy/olio/transmission.py
+++ b/resqpy/olio/transmission.py
@@ -408,6 +408,9 @@ def half_cell_t_vertical_prism(vpg,
     p = vpg.points_ref()
     t = vpg.triangulation()
     a_t, d_t = half_cell_t_2d_triangular_precursor(p, t)
+    # change order from that of opposite nodes to that of the vertical faces of the cells
+    a_t = a_t[:, (1, 2, 0)]
+    d_t = d_t[:, (1, 2, 0)]
     # find heights of cells and faces
     # find horizontal area of triangles
     triangle_areas = vec.area_of_triangles(p, t, xy_projection = True).reshape((1, -1))
-- 
2.43.0


From 4f987ad8520fb4675e2c6f6e080b0cf9355ba49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:01 +0000
Subject: [PATCH 061/142] fix: include height of cell in prism half cell
 transmissibility

---
 resqpy/olio/transmission.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/resqpy/olio/transmission.py b/resqpy/olio/transmission.py
index db5c696..26b192b 100644
--- a/resqpy/olio/transmission.py
+++ b/resqpy/olio/transmission.py
@@ -414,7 +414,6 @@ def half_cell_t_vertical_prism(vpg,
     # find heights of cells and faces
     # find horizontal area of triangles
     triangle_areas = vec.area_of_triangles(p, t, xy_projection = True).reshape((1, -1))
-    cp = vpg.corner_points()
     half_thickness = 0.5 * vpg.thickness().reshape((vpg.nk, -1))
 
     # compute transmissibilities
@@ -428,8 +427,8 @@ def half_cell_t_vertical_prism(vpg,
     dt_full = np.empty((vpg.nk, vpg.cell_count // vpg.nk, 3), dtype = float)
     dt_full[:] = d_t
     tr[:, 2:] = np.where(dt_full < tolerance, np.nan,
-                         triple_perm_horizontal.reshape((vpg.nk, -1, 3)) * a_t.reshape((1, -1, 3)) / dt_full).reshape(
-                             (-1, 3))
+                         triple_perm_horizontal.reshape((vpg.nk, -1, 3)) * a_t.reshape((1, -1, 3)) * 2.0 *
+                         np.expand_dims(half_thickness, axis = -1) / dt_full).reshape((-1, 3))
     if ntg is not None:
         tr[:, 2:] *= ntg.reshape((-1, 1))
 
-- 
2.43.0


From 4ca8a3ee656481c15af0b8f8a673ffc7e133d23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 062/142] fix: restore angle unit, md datum and interpretation
 when loading deviation survey

---
 resqpy/well/_deviation_survey.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/resqpy/well/_deviation_survey.py b/resqpy/well/_deviation_survey.py
index 6a67a4b..dfb162a 100644
--- a/resqpy/well/_deviation_survey.py
+++ b/resqpy/well/_deviation_survey.py
@@ -272,6 +272,7 @@ class DeviationSurvey(BaseResqpy):
         # Load XML data
         self.md_uom = rqet.length_units_from_node(rqet.find_tag(node, 'MdUom', must_exist = True))
         self.angle_uom = rqet.find_tag_text(node, 'AngleUom', must_exist = True)
+        self.angles_in_degrees = self.angle_uom.strip().lower().startswith('deg')
         self.station_count = rqet.find_tag_int(node, 'StationCount', must_exist = True)
         self.first_station = rqwu.extract_xyz(rqet.find_tag(node, 'FirstStationLocation', must_exist = True))
         self.is_final = rqet.find_tag_bool(node, 'IsFinal')
@@ -286,7 +287,7 @@ class DeviationSurvey(BaseResqpy):
 
         # Set related objects
         self.md_datum = self._load_related_datum()
-        self.represented_interp = self._load_related_wellbore_interp()
+        self.wellbore_interpretation = self._load_related_wellbore_interp()
 
         # Validate
         assert self.measured_depths is not None
@@ -461,11 +462,9 @@ class DeviationSurvey(BaseResqpy):
     def _load_related_datum(self):
         """Return related MdDatum object from XML if present."""
 
-        md_datum_uuid = bu.uuid_from_string(rqet.find_tag(rqet.find_tag(self.root, 'MdDatum'), 'UUID'))
+        md_datum_uuid = bu.uuid_from_string(rqet.find_nested_tags_text(self.root, ['MdDatum', 'UUID']))
         if md_datum_uuid is not None:
-            md_datum_part = 'obj_MdDatum_' + str(md_datum_uuid) + '.xml'
-            md_datum = rqmdd.MdDatum(self.model,
-                                     md_datum_root = self.model.root_for_part(md_datum_part, is_rels = False))
+            md_datum = rqmdd.MdDatum(self.model, uuid = md_datum_uuid)
         else:
             md_datum = None
         return md_datum
-- 
2.43.0


From b1decf7d118d73f8e8c2d234fc78506f769fcf49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 063/142] fix: set trajectory uuid when loading wellbore frame

---
 resqpy/well/_wellbore_frame.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resqpy/well/_wellbore_frame.py b/resqpy/well/_wellbore_frame.py
index eb2dbaf..4b07301 100644
--- a/resqpy/well/_wellbore_frame.py
+++ b/resqpy/well/_wellbore_frame.py
@@ -115,6 +115,7 @@ class WellboreFrame(BaseResqpy):
 
         trajectory_uuid = bu.uuid_from_string(rqet.find_nested_tags_text(node, ['Trajectory', 'UUID']))
         assert trajectory_uuid is not None, 'wellbore frame trajectory reference not found in xml'
+        self.trajectory_uuid = trajectory_uuid
         if self.trajectory is None:
             self.trajectory = rqw.Trajectory(self.model, uuid = trajectory_uuid)
         else:
-- 
2.43.0


From bd0967b407a023a53f6501ea2e4595df787c1061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 064/142] fix: load surface role for surface

---
 resqpy/surface/_surface.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resqpy/surface/_surface.py b/resqpy/surface/_surface.py
index d2b183e..02f0430 100644
--- a/resqpy/surface/_surface.py
+++ b/resqpy/surface/_surface.py
@@ -226,6 +226,9 @@ class Surface(rqsb.BaseSurface):
         root_node = self.root
         assert root_node is not None
         self.extract_patches(root_node)
+        surface_role = rqet.find_tag_text(root_node, 'SurfaceRole')
+        if surface_role is not None:
+            self.surface_role = surface_role
         ref_node = rqet.find_tag(root_node, 'RepresentedInterpretation')
         if ref_node is not None:
             interp_root = self.model.referenced_node(ref_node)
-- 
2.43.0


From 95e37a48a2300eb4b27a2794d690e1b678fe2044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:38 +0000
Subject: [PATCH 065/142] fix: supporting shape for faces of unstructured grid

---
 resqpy/property/_collection_get_attributes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resqpy/property/_collection_get_attributes.py b/resqpy/property/_collection_get_attributes.py
index 4fc6445..1203c22 100644
--- a/resqpy/property/_collection_get_attributes.py
+++ b/resqpy/property/_collection_get_attributes.py
@@ -549,10 +549,13 @@ def _supporting_shape_pointset(support, indexable_element):
 
 
 def _supporting_shape_other(support, indexable_element):
+    shape_list = None
     if indexable_element is None or indexable_element == 'cells':
         shape_list = [support.cell_count]
     elif indexable_element == 'nodes':
         shape_list = [support.node_count]
+    elif indexable_element == 'faces':
+        shape_list = [support.face_count]
     elif indexable_element == 'faces per cell':
         support.cache_all_geometry_arrays()
         shape_list = [len(support.faces_per_cell)]
-- 
2.43.0


From c2744f40ff828712d2d8e440eca09918a89b412b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:38 +0000
Subject: [PATCH 066/142] fix: direction of k axis of regular grid made from
 mesh

---
 resqpy/grid/_regular_grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/grid/_regular_grid.py b/resqpy/grid/_regular_grid.py
index 3ae2375..7aa10e0 100644
--- a/resqpy/grid/_regular_grid.py
+++ b/resqpy/grid/_regular_grid.py
@@ -129,7 +129,7 @@ class RegularGrid(grr_g.Grid):
                 assert dxyz is None and dxyz_dkji is None
                 origin = mesh.regular_origin
                 dxyz_dkji = np.empty((3, 3))
-                dxyz_dkji[0, :] = mesh_dz_dk
+                dxyz_dkji[0, :] = (0.0, 0.0, mesh_dz_dk)
                 dxyz_dkji[1, :] = mesh.regular_dxyz_dij[1]  # J axis
                 dxyz_dkji[2, :] = mesh.regular_dxyz_dij[0]  # I axis
                 if crs_uuid is None:
-- 
2.43.0


From b3d7928210e63b36b6327ad85aec03f7ed379c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:38 +0000
Subject: [PATCH 067/142] fix: order minima and maxima in global xyz box of
 grid

---
 resqpy/grid/_xyz.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/resqpy/grid/_xyz.py b/resqpy/grid/_xyz.py
index e702127..88c1dba 100644
--- a/resqpy/grid/_xyz.py
+++ b/resqpy/grid/_xyz.py
@@ -60,7 +60,9 @@ def xyz_box(grid, points_root = None, lazy = True, local = False):
     if local:
         return grid.xyz_box_cached
     global_xyz_box = grid.xyz_box_cached.copy()
-    return grid.local_to_global_crs(global_xyz_box, crs_uuid = grid.crs_uuid)
+    grid.local_to_global_crs(global_xyz_box, crs_uuid = grid.crs_uuid)
+    # crs conversion may reverse the direction of an axis
+    return np.stack((np.min(global_xyz_box, axis = 0), np.max(global_xyz_box, axis = 0)))
 
 
 def xyz_box_centre(grid, points_root = None, lazy = False, local = False):
-- 
2.43.0


From 2d94605fdcbe1da4c1bbfc365d135e47f6c652f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:33 +0000
Subject: [PATCH 068/142] fix: shape and type of points properties (tag names)

---
 resqpy/property/property_collection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/property/property_collection.py b/resqpy/property/property_collection.py
index ed469ea..4fb3b0d 100644
--- a/resqpy/property/property_collection.py
+++ b/resqpy/property/property_collection.py
@@ -1878,9 +1878,9 @@ class PropertyCollection():
 
     def _shape_and_type_of_part_get_h5keypair(self, part, part_node, model):
         if self.points_for_part(part):
-            patch_list = rqet.list_of_tag(part_node, 'PatchOfpoints')
+            patch_list = rqet.list_of_tag(part_node, 'PatchOfPoints')
             assert len(patch_list) == 1  # todo: handle more than one patch of points
-            return model.h5_uuid_and_path_for_node(rqet.find_tag(patch_list[0], 'Coordinates'))
+            return model.h5_uuid_and_path_for_node(rqet.find_tag(patch_list[0], 'Points'), tag = 'Coordinates')
         else:
             patch_list = rqet.list_of_tag(part_node, 'PatchOfValues')
             assert len(patch_list) == 1  # todo: handle more than one patch of values
-- 
2.43.0


From 33ac52c8d4d7403ef74412f5ef462c5ced687050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:33 +0000
Subject: [PATCH 069/142] fix: constant property arrays with more than one
 value per element

---
 resqpy/property/_collection_create_xml.py     |  4 ++--
 resqpy/property/_collection_get_attributes.py |  2 ++
 resqpy/property/property_collection.py        | 11 ++++++++---
 3 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/resqpy/property/_collection_create_xml.py b/resqpy/property/_collection_create_xml.py
index d35777d..d2481c9 100644
--- a/resqpy/property/_collection_create_xml.py
+++ b/resqpy/property/_collection_create_xml.py
@@ -85,13 +85,13 @@ def _create_xml_property_kind(collection, p_node, find_local_property_kinds, pro
 
 
 def _create_xml_patch_node(collection, p_node, points, const_value, indexable_element, direction, p_uuid, ext_uuid,
-                           expand_const_arrays, hdf5_type, xsd_type, null_value):
+                           expand_const_arrays, hdf5_type, xsd_type, null_value, count):
     # create patch node
     const_count = None
     if const_value is not None and not expand_const_arrays:
         s_shape = collection.supporting_shape(indexable_element = indexable_element, direction = direction)
         assert s_shape is not None
-        const_count = np.prod(np.array(s_shape, dtype = int))
+        const_count = np.prod(np.array(s_shape, dtype = int)) * count
     else:
         const_value = None
     _ = collection.model.create_patch(p_uuid,
diff --git a/resqpy/property/_collection_get_attributes.py b/resqpy/property/_collection_get_attributes.py
index 1203c22..e78c8ce 100644
--- a/resqpy/property/_collection_get_attributes.py
+++ b/resqpy/property/_collection_get_attributes.py
@@ -635,6 +635,8 @@ def _cached_part_array_ref_const_notnone(collection, part, const_value, cached_a
     shape = collection.supporting_shape(indexable_element = collection.indexable_for_part(part),
                                         direction = _part_direction(collection, part))
     assert shape is not None
+    if collection.count_for_part(part) > 1:
+        shape.append(collection.count_for_part(part))
     a = np.full(shape, const_value, dtype = float if collection.continuous_for_part(part) else int)
     setattr(collection, cached_array_name, a)
 
diff --git a/resqpy/property/property_collection.py b/resqpy/property/property_collection.py
index 4fb3b0d..ab51570 100644
--- a/resqpy/property/property_collection.py
+++ b/resqpy/property/property_collection.py
@@ -1869,6 +1869,8 @@ class PropertyCollection():
             shape = self.supporting_shape(indexable_element = self.indexable_for_part(part),
                                           direction = pcga._part_direction(self, part))
             assert shape is not None
+            if self.count_for_part(part) > 1:
+                shape.append(self.count_for_part(part))
             return shape, (float if self.continuous_for_part(part) else int)
 
         h5_key_pair = self._shape_and_type_of_part_get_h5keypair(part, part_node, model)
@@ -2468,8 +2470,11 @@ class PropertyCollection():
                 uuid = entry[0]
                 cached_name = rqp_c._cache_name_for_uuid(uuid)
                 assert self.support is not None
-                #  note: will not handle direction dependent shapes or points
-                shape = self.supporting_shape(indexable_element = entry[14])
+                #  note: will not handle points
+                shape = self.supporting_shape(indexable_element = entry[14],
+                                              direction = entry[12] if entry[11] == 'direction' else None)
+                if entry[15] > 1:
+                    shape.append(entry[15])
                 value = float(entry[17]) if isinstance(entry[17], str) else entry[17]
                 self.__dict__[cached_name] = np.full(shape, value, dtype = dtype)
             else:
@@ -2714,7 +2719,7 @@ class PropertyCollection():
         property_kind_uuid = pcxml._create_xml_property_kind(self, p_node, find_local_property_kinds, property_kind,
                                                              uom, discrete, property_kind_uuid)
         pcxml._create_xml_patch_node(self, p_node, points, const_value, indexable_element, direction, p_uuid, ext_uuid,
-                                     expand_const_arrays, hdf5_type, xsd_type, null_value)
+                                     expand_const_arrays, hdf5_type, xsd_type, null_value, count)
         pcxml._create_xml_facet_node(facet_type, facet, p_node)
 
         pcxml._create_xml_property_min_max(self, property_array, const_value, discrete, add_min_max, p_node, min_value,
-- 
2.43.0


From 401497e143585ceca513eb706da4199e06f83e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:33 +0000
Subject: [PATCH 070/142] fix: discrete and string lookup arguments of
 add_similar_to_imported_list

---
 resqpy/property/property_collection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/property/property_collection.py b/resqpy/property/property_collection.py
index ab51570..cd6cc5d 100644
--- a/resqpy/property/property_collection.py
+++ b/resqpy/property/property_collection.py
@@ -2386,7 +2386,7 @@ class PropertyCollection():
         args = {}
         args['keyword'] = get_arg(keyword, get_arg(title, similar.title))
         assert args['keyword'] is not None
-        args['discrete'] = get_arg(uom, not similar.is_continuous())
+        args['discrete'] = get_arg(discrete, not similar.is_continuous())
         args['uom'] = get_arg(uom, similar.uom())
         args['time_index'] = get_arg(time_index, similar.time_index())
         args['null_value'] = get_arg(null_value, similar.null_value())
@@ -2400,7 +2400,7 @@ class PropertyCollection():
         args['const_value'] = const_value  # NB. not inherited
         args['points'] = get_arg(points, similar.is_points())
         args['time_series_uuid'] = get_arg(time_series_uuid, similar.time_series_uuid())
-        args['string_lookup_uuid'] = get_arg(time_series_uuid, similar.string_lookup_uuid())
+        args['string_lookup_uuid'] = get_arg(string_lookup_uuid, similar.string_lookup_uuid())
         em = similar.extra_metadata if hasattr(similar, 'extra_metadata') else {}
         args['source_info'] = get_arg(source_info, em.get('source'))
 
-- 
2.43.0


From 690e572b1932e5da032472e1fca464c8a51824b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:34 +0000
Subject: [PATCH 071/142] fix: sampling a constant property from another
 collection

---
 resqpy/property/property_collection.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/resqpy/property/property_collection.py b/resqpy/property/property_collection.py
index cd6cc5d..5f40bc4 100644
--- a/resqpy/property/property_collection.py
+++ b/resqpy/property/property_collection.py
@@ -414,10 +414,13 @@ class PropertyCollection():
             target_shape = self.supporting_shape(indexable_element = other.indexable_for_part(part),
                                                  direction = pcga._part_direction(other, part))
             assert np.prod(target_shape) == flattened_indices.size
-            # each element may have more than one value (count) and/or be a point
-            per_element = ((info[5],) if info[5] > 1 else ()) + ((3,) if info[21] else ())
-            a = other.cached_part_array_ref(part).reshape((-1,) + per_element)[flattened_indices]
-            a = a.reshape(tuple(target_shape) + per_element)
+            if info[20] is None:
+                # each element may have more than one value (count) and/or be a point
+                per_element = ((info[5],) if info[5] > 1 else ()) + ((3,) if info[21] else ())
+                a = other.cached_part_array_ref(part).reshape((-1,) + per_element)[flattened_indices]
+                a = a.reshape(tuple(target_shape) + per_element)
+            else:  # constant array
+                a = None
             self.add_cached_array_to_imported_list(a,
                                                    source,
                                                    info[10],
-- 
2.43.0


From ea1ef44f6c86e010de0cae4c8cb3e3d54355cf11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:34 +0000
Subject: [PATCH 072/142] fix: masking of null values of zero or NaN and of
 points arrays

---
 resqpy/property/property_collection.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/resqpy/property/property_collection.py b/resqpy/property/property_collection.py
index 5f40bc4..650c1bd 100644
--- a/resqpy/property/property_collection.py
+++ b/resqpy/property/property_collection.py
@@ -1703,8 +1703,11 @@ class PropertyCollection():
         """
 
         mask = self._masked_array_apply_inactive(exclude_inactive, points, simple_array)
-        if exclude_value:
-            null_mask = (simple_array == exclude_value)
+        if exclude_value is not None:
+            if exclude_value != exclude_value:  # NaN
+                null_mask = np.isnan(simple_array)
+            else:
+                null_mask = (simple_array == exclude_value)
             if mask is None:
                 mask = null_mask
             else:
@@ -1725,7 +1728,7 @@ class PropertyCollection():
                 if (self.support.inactive.ndim + 1 == simple_array.ndim and
                         self.support.inactive.shape == tuple(simple_array.shape[:-1])):
                     mask = np.empty(simple_array.shape, dtype = bool)
-                    mask[:] = self.support.inactive[:, np.newaxis]
+                    mask[:] = self.support.inactive[..., np.newaxis]
         return mask
 
     def h5_key_pair_for_part(self, part):
@@ -1794,7 +1797,9 @@ class PropertyCollection():
 
         if masked:
             exclude_value = self.null_value_for_part(part) if exclude_null else None
-            return self.masked_array(self.__dict__[cached_array_name], exclude_value = exclude_value)
+            return self.masked_array(self.__dict__[cached_array_name],
+                                     exclude_value = exclude_value,
+                                     points = self.points_for_part(part))
         else:
             return self.__dict__[cached_array_name]
 
-- 
2.43.0


From c7e7c44435ed52559c421fc2969299d5521717c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:34 +0000
Subject: [PATCH 073/142] fix: reading a property with count greater than one
 as bool

---
 resqpy/property/_collection_get_attributes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resqpy/property/_collection_get_attributes.py b/resqpy/property/_collection_get_attributes.py
index e78c8ce..16d7bab 100644
--- a/resqpy/property/_collection_get_attributes.py
+++ b/resqpy/property/_collection_get_attributes.py
@@ -616,6 +616,8 @@ def _cached_part_array_ref_const_none(collection, part, dtype, model, cached_arr
     if use_pack and ('bool' in str_dtype or 'uint8' in str_dtype):
         required_shape = collection.supporting_shape(indexable_element = collection.indexable_for_part(part),
                                                      direction = _part_direction(collection, part))
+        if required_shape is not None and collection.count_for_part(part) > 1:
+            required_shape.append(collection.count_for_part(part))
 
     h5_key_pair = model.h5_uuid_and_path_for_node(first_values_node, tag = tag)
     if h5_key_pair is None:
-- 
2.43.0


From 56540bd837e07bfa988b9b06c0307c3a6a05820d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:34 +0000
Subject: [PATCH 074/142] fix: packing of one boolean array leaked to later
 arrays in write_hdf5_for_imported_list

---
 resqpy/property/property_collection.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/resqpy/property/property_collection.py b/resqpy/property/property_collection.py
index 650c1bd..c62f20c 100644
--- a/resqpy/property/property_collection.py
+++ b/resqpy/property/property_collection.py
@@ -2491,8 +2491,10 @@ class PropertyCollection():
             tail = 'points_patch0' if entry[18] else 'values_patch0'
             if use_pack and (str(dtype).startswith('bool') or
                              (dtype is None and str(self.__dict__[cached_name].dtype) == 'bool')):
-                dtype = 'pack'
-            h5_reg.register_dataset(uuid, tail, self.__dict__[cached_name], dtype = dtype)
+                array_dtype = 'pack'
+            else:
+                array_dtype = dtype
+            h5_reg.register_dataset(uuid, tail, self.__dict__[cached_name], dtype = array_dtype)
         h5_reg.write(file = file_name, mode = mode, use_int32 = use_int32)
 
     def write_hdf5_for_part(self,
-- 
2.43.0


From 9a1b4af85808ab8dd4245899f77a74b5920ea02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:34 +0000
Subject: [PATCH 075/142] fix: uom argument ignored when selecting from a
 property collection

---
 resqpy/property/_collection_add_part.py | 4 +++-
 resqpy/property/property_collection.py  | 4 ++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/resqpy/property/_collection_add_part.py b/resqpy/property/_collection_add_part.py
index 24cdb97..1af168b 100644
--- a/resqpy/property/_collection_add_part.py
+++ b/resqpy/property/_collection_add_part.py
@@ -17,7 +17,7 @@ import resqpy.property._collection_get_attributes as pcga
 
 def _add_selected_part_from_other_dict(collection, part, other, realization, support_uuid, uuid, continuous,
                                        categorical, count, points, indexable, property_kind, facet_type, facet,
-                                       citation_title, citation_title_match_mode, time_series_uuid, time_index,
+                                       citation_title, citation_title_match_mode, time_series_uuid, time_index, uom,
                                        string_lookup_uuid, related_uuid, const_value, extra, ignore_clashes):
     if _check_not_none_and_not_equals(realization, other.realization_for_part, part):
         return
@@ -47,6 +47,8 @@ def _add_selected_part_from_other_dict(collection, part, other, realization, sup
         return
     if _check_not_none_and_not_equals(time_index, other.time_index_for_part, part):
         return
+    if _check_not_none_and_not_equals(uom, other.uom_for_part, part):
+        return
     if _check_not_none_and_not_uuid_match(string_lookup_uuid, other.string_lookup_uuid_for_part, part):
         return
     if _check_not_none_and_not_equals(const_value, other.constant_value_for_part, part):
diff --git a/resqpy/property/property_collection.py b/resqpy/property/property_collection.py
index c62f20c..acf6ceb 100644
--- a/resqpy/property/property_collection.py
+++ b/resqpy/property/property_collection.py
@@ -502,8 +502,8 @@ class PropertyCollection():
             pcap._add_selected_part_from_other_dict(self, part, other, realization, support_uuid, uuid, continuous,
                                                     categorical, count, points, indexable, property_kind, facet_type,
                                                     facet, citation_title, citation_title_match_mode, time_series_uuid,
-                                                    time_index, string_lookup_uuid, related_uuid, const_value, extra,
-                                                    ignore_clashes)
+                                                    time_index, uom, string_lookup_uuid, related_uuid, const_value,
+                                                    extra, ignore_clashes)
 
     def inherit_similar_parts_for_time_series_from_other_collection(self,
                                                                     other,
-- 
2.43.0


From 9998a1330867ec0f49c01bcd19523883e5b8485c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:34 +0000
Subject: [PATCH 076/142] fix: special selection values for realization, time
 index, support and property kind

---
 resqpy/property/_collection_add_part.py | 2 +-
 resqpy/property/property_collection.py  | 2 +-
 resqpy/property/property_common.py      | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/resqpy/property/_collection_add_part.py b/resqpy/property/_collection_add_part.py
index 1af168b..5640796 100644
--- a/resqpy/property/_collection_add_part.py
+++ b/resqpy/property/_collection_add_part.py
@@ -35,7 +35,7 @@ def _add_selected_part_from_other_dict(collection, part, other, realization, sup
         return
     if _check_not_none_and_not_equals(indexable, other.indexable_for_part, part):
         return
-    if property_kind is not None and not rqp_c.same_property_kind(other.property_kind_for_part(part), property_kind):
+    if property_kind not in [None, '*'] and not rqp_c.same_property_kind(other.property_kind_for_part(part), property_kind):
         return
     if _check_not_none_and_not_equals(facet_type, other.facet_type_for_part, part):
         return
diff --git a/resqpy/property/property_collection.py b/resqpy/property/property_collection.py
index acf6ceb..81dad7b 100644
--- a/resqpy/property/property_collection.py
+++ b/resqpy/property/property_collection.py
@@ -495,7 +495,7 @@ class PropertyCollection():
         rqp_c.check_and_warn_property_kind(property_kind, 'selecting properties')
         if self.realization is not None and other.realization is not None:
             assert self.realization == other.realization
-        if time_index is not None:
+        if time_index is not None and time_index not in ['*', 'none']:
             assert time_index >= 0
 
         for (part, info) in other.dict.items():
diff --git a/resqpy/property/property_common.py b/resqpy/property/property_common.py
index 65d48e6..610c450 100644
--- a/resqpy/property/property_common.py
+++ b/resqpy/property/property_common.py
@@ -566,9 +566,9 @@ def selective_version_of_collection(collection,
 
     assert collection is not None
     view = rqp.PropertyCollection()
-    if support_uuid is not None:
+    if support_uuid is not None and str(support_uuid) not in ['*', 'none']:
         view.set_support(support_uuid = support_uuid, model = collection.model)
-    if realization is not None:
+    if realization is not None and realization not in ['*', 'none']:
         view.set_realization(realization)
     if citation_title is None:
         citation_title = title
-- 
2.43.0


From 863fd15d08d460802659bba85dbaebe3d58b19ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:34 +0000
Subject: [PATCH 077/142] fix: mask lost in normalized property array

---
 resqpy/property/property_collection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resqpy/property/property_collection.py b/resqpy/property/property_collection.py
index 81dad7b..a6bbcd9 100644
--- a/resqpy/property/property_collection.py
+++ b/resqpy/property/property_collection.py
@@ -2181,6 +2181,8 @@ class PropertyCollection():
             return None, min_value, max_value
 
         n_prop = p_array.astype(float)
+        if masked and ma.isMaskedArray(n_prop):
+            n_prop.harden_mask()  # so that assignments below do not clear mask
         # todo: for discrete p_array, set n_prop to nan where p_array == null value
         if use_logarithm:
             n_prop, min_value, max_value = pcga._normalized_part_array_use_logarithm(min_value, n_prop, masked)
-- 
2.43.0


From 2b6dfa1e450e79fcac435ebf78c19115e8b1f43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:34 +0000
Subject: [PATCH 078/142] fix: support of members changed when adding parts to
 a multi-support property collection

---
 resqpy/property/_collection_add_part.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resqpy/property/_collection_add_part.py b/resqpy/property/_collection_add_part.py
index 5640796..50dbffa 100644
--- a/resqpy/property/_collection_add_part.py
+++ b/resqpy/property/_collection_add_part.py
@@ -105,7 +105,8 @@ def _add_part_to_dict_get_support_uuid(collection, part):
     if support_uuid is None:
         support_uuid = collection.support_uuid
     elif collection.support_uuid is None:
-        collection.set_support(support_uuid)
+        if all([info[1] is None for info in collection.dict.values()]):  # otherwise already a multi-support collection
+            collection.set_support(support_uuid)
     elif not bu.matching_uuids(support_uuid, collection.support.uuid):  # multi-support collection
         collection.set_support(None)
     if isinstance(support_uuid, str):
-- 
2.43.0


From e17eb675343fc045cc5c923a6260974c93a3575b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:57 +0000
Subject: [PATCH 079/142] fix: basic static properties when no vertical
 permeability can be determined

---
 resqpy/property/_collection_get_attributes.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resqpy/property/_collection_get_attributes.py b/resqpy/property/_collection_get_attributes.py
index 16d7bab..f205224 100644
--- a/resqpy/property/_collection_get_attributes.py
+++ b/resqpy/property/_collection_get_attributes.py
@@ -196,6 +196,7 @@ def _get_single_perm_ijk_parts(collection, perms, share_perm_parts, perm_k_mode,
 
 def _get_perm_k_part(collection, perms, perm_k_mode, share_perm_parts, perm_i_part, perm_j_part, perm_k_ratio,
                      ntg_part):
+    perm_k_part = None
     if perm_k_mode == 'shared':
         if share_perm_parts:
             perm_k_part = perm_i_part
-- 
2.43.0


From 345f95048aa35410d3979eb6e65c9094aad3dff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:07 +0000
Subject: [PATCH 080/142] fix: shortage of data in ascii array file not
 detected

---
 resqpy/olio/load_data.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/resqpy/olio/load_data.py b/resqpy/olio/load_data.py
index 88c5163..3f3d1e9 100644
--- a/resqpy/olio/load_data.py
+++ b/resqpy/olio/load_data.py
@@ -315,6 +315,7 @@ def load_array_from_ascii_file(file_name,
         if data_free_of_comments:  # use numpy fromfile function after passing header comments
 
             result = np.fromfile(data_file, dtype = d_type, count = cell_count, sep = ' ')
+            assert extent is None or result.size == cell_count, 'not enough data in file'
 
             if result is None:
                 data_file.seek(0)
@@ -346,8 +347,12 @@ def load_array_from_ascii_file(file_name,
                     eol = len(b)
                 b[i:eol] = sp * (eol - i)
 
-            result = np.fromstring(b.decode(), dtype = d_type, count = cell_count, sep = ' ')
+            # note: count is not passed to fromstring as a shortage of data would then go undetected
+            result = np.fromstring(b.decode(), dtype = d_type, sep = ' ')
             # note: extra data will go unnoticed if cell count known!
+            if extent is not None:
+                assert result.size >= cell_count, 'not enough data in file'
+                result = result[:cell_count]
             del b
 
         if result is None:
-- 
2.43.0


From 3422bb2c05ed4c6cf20520e27564214f70601da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:02 +0000
Subject: [PATCH 081/142] fix: C comment lines within ascii array data

---
 resqpy/olio/load_data.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resqpy/olio/load_data.py b/resqpy/olio/load_data.py
index 3f3d1e9..a11bf54 100644
--- a/resqpy/olio/load_data.py
+++ b/resqpy/olio/load_data.py
@@ -7,6 +7,7 @@ import logging
 log = logging.getLogger(__name__)
 
 import os
+import re
 import numpy as np
 
 import resqpy.olio.ab_toolbox as abt
@@ -334,6 +335,8 @@ def load_array_from_ascii_file(file_name,
             #         del s
 
             b = bytearray(data_file.read().encode())
+            if skip_c_space:  # blank any lines starting 'C' followed by white space
+                b = bytearray(re.sub(rb'^[ \t]*[Cc](?=\s|$).*$', b'', b, flags = re.MULTILINE))
             bc = comment_char.encode()
             nl = b'\n'
             sp = b' '
-- 
2.43.0


From d345bf828132a6830254c1ae8927d978063c4555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:50 +0000
Subject: [PATCH 082/142] fix: binary array file read as text when named in
 load_array_from_file

---
 resqpy/olio/load_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/olio/load_data.py b/resqpy/olio/load_data.py
index a11bf54..f8118d7 100644
--- a/resqpy/olio/load_data.py
+++ b/resqpy/olio/load_data.py
@@ -197,7 +197,7 @@ def load_array_from_file(file_name,
         pass
 
     # read from ascii file
-    result = load_array_from_ascii_file(file_name,
+    result = load_array_from_ascii_file(ascii_file_name,
                                         extent = extent,
                                         data_type = data_type,
                                         keyword = keyword,
-- 
2.43.0


From fc379a3011e7a7786937cb3a512dc7eaa837c312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:50 +0000
Subject: [PATCH 083/142] fix: data type of binary copy written with ascii
 array

---
 resqpy/olio/write_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/olio/write_data.py b/resqpy/olio/write_data.py
index 1ed63a7..aaa3d06 100644
--- a/resqpy/olio/write_data.py
+++ b/resqpy/olio/write_data.py
@@ -103,7 +103,7 @@ def write_array_to_ascii_file(file_name,
             # could abort at this point, or raise
 
     if use_binary:
-        extension, _ = abt.binary_file_extension_and_np_type_for_data_type(data_type)
+        extension, ab_type = abt.binary_file_extension_and_np_type_for_data_type(data_type)
         binary_file_name = file_name + extension
         if append and (keyword is not None):
             key = keyword.split()[0].lower()
@@ -115,7 +115,7 @@ def write_array_to_ascii_file(file_name,
             ap = np.where(np.isnan(a), nan_substitute_value, a)
         try:
             with open(binary_file_name, 'wb') as binary_file_out:
-                ap.tofile(binary_file_out)
+                ap.astype(ab_type).tofile(binary_file_out)
             log.info('Binary data file %s created', binary_file_name)
         except Exception:
             log.warning('Failed to write data to binary file %s', binary_file_name)
-- 
2.43.0


From 0b8a20e17f066125374cfe7a2b8c4b71a901c89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:50 +0000
Subject: [PATCH 084/142] fix: return_64_bit ignored by load_array_from_ab_file

---
 resqpy/olio/ab_toolbox.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resqpy/olio/ab_toolbox.py b/resqpy/olio/ab_toolbox.py
index 5614620..5bc23ea 100644
--- a/resqpy/olio/ab_toolbox.py
+++ b/resqpy/olio/ab_toolbox.py
@@ -27,6 +27,8 @@ def load_array_from_ab_file(file_name, shape, return_64_bit = False):
             log.warning('binary file contains more data than expected: ' + file_name)
     except Exception:
         pass
+    if return_64_bit:
+        a = a.astype(np.float64 if a.dtype.kind == 'f' else np.int64)
     return a
 
 
-- 
2.43.0


From 65680961813ceb8fa562c874e1bfa87b21fb243a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:50 +0000
Subject: [PATCH 085/142] fix: single character trailing comment lost

---
 resqpy/olio/keyword_files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/olio/keyword_files.py b/resqpy/olio/keyword_files.py
index 24b6372..cb195ac 100644
--- a/resqpy/olio/keyword_files.py
+++ b/resqpy/olio/keyword_files.py
@@ -93,7 +93,7 @@ def split_trailing_comment(line, comment_char = '!'):
         local_line = local_line[:-1]
     try:
         pling = local_line.index(comment_char)
-        if pling < len(local_line) - 2:
+        if pling < len(local_line) - 1:
             comment = local_line[pling + 1:]
         return (local_line[:pling], comment)
     except Exception:
-- 
2.43.0


From 0bec1e278fec7dd653d6f44ee026133f97da08e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:37 +0000
Subject: [PATCH 086/142] fix: vertical rescale of surface with points not yet
 loaded

---
 resqpy/surface/_surface.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resqpy/surface/_surface.py b/resqpy/surface/_surface.py
index 02f0430..6b0812a 100644
--- a/resqpy/surface/_surface.py
+++ b/resqpy/surface/_surface.py
@@ -995,7 +995,8 @@ class Surface(rqsb.BaseSurface):
             return
         if ref_depth is None:
             for patch in self.patch_list:
-                patch_min = np.min(patch.points[:, 2])
+                _, patch_points = patch.triangles_and_points()  # ensure points are loaded
+                patch_min = np.min(patch_points[:, 2])
                 if ref_depth is None or patch_min < ref_depth:
                     ref_depth = patch_min
         assert ref_depth is not None, 'no z values found for vertical rescaling of surface'
-- 
2.43.0


From f69f1bc5c16e24242c4e209b16717fe696648ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:37 +0000
Subject: [PATCH 087/142] fix: node counts expected in face_from_triangle_index

---
 resqpy/surface/_triangulated_patch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/surface/_triangulated_patch.py b/resqpy/surface/_triangulated_patch.py
index 9600ff9..ad2b92f 100644
--- a/resqpy/surface/_triangulated_patch.py
+++ b/resqpy/surface/_triangulated_patch.py
@@ -542,11 +542,11 @@ class TriangulatedPatch:
         """For patch freshly built for cell faces, returns (axis, polarity) for given triangle index."""
 
         if self.quad_triangles:
-            assert self.node_count == 30 and self.triangle_count == 24
+            assert self.node_count == 14 and self.triangle_count == 24
             assert 0 <= triangle_index < 24
             face = triangle_index // 4
         else:
-            assert self.node_count == 24 and self.triangle_count == 12
+            assert self.node_count == 8 and self.triangle_count == 12
             assert 0 <= triangle_index < 12
             face = triangle_index // 2
         axis, polarity = divmod(face, 2)
-- 
2.43.0


From be92740c1feb13febc40b98ecf842ee74a546ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:20 +0000
Subject: [PATCH 088/142] fix: clockwise triangles in reoriented space for
 surface from point set

---
 resqpy/surface/_surface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/surface/_surface.py b/resqpy/surface/_surface.py
index 6b0812a..dd691f8 100644
--- a/resqpy/surface/_surface.py
+++ b/resqpy/surface/_surface.py
@@ -696,7 +696,7 @@ class Surface(rqsb.BaseSurface):
             t = triangulate.dt(p_xy_e[:, :2], container_size_factor = convexity_parameter * 1.1)
         log.debug('number of triangles: ' + str(len(t)))
         if make_clockwise:
-            triangulate.make_all_clockwise_xy(t, p_e)  # modifies t in situ
+            triangulate.make_all_clockwise_xy(t, p_xy_e)  # modifies t in situ
         if extend_with_flange:
             flange_array = np.zeros(len(t), dtype = bool)
             flange_array[:] = np.where(np.any(t >= len(p), axis = 1), True, False)
-- 
2.43.0


From 81edf01386c11eb850ff8fdd23a9a28156b0c85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:12 +0000
Subject: [PATCH 089/142] fix: stale normal vector of surface after change of
 crs or vertical rescale

---
 resqpy/surface/_surface.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resqpy/surface/_surface.py b/resqpy/surface/_surface.py
index dd691f8..03022d2 100644
--- a/resqpy/surface/_surface.py
+++ b/resqpy/surface/_surface.py
@@ -388,6 +388,7 @@ class Surface(rqsb.BaseSurface):
             patch.crs_uuid = self.crs_uuid
         self.triangles = None  # clear cached arrays for surface
         self.points = None
+        self.normal_vector = None
         self.uuid = bu.new_uuid()  # hope this doesn't cause problems
         assert self.root is None
 
@@ -1002,6 +1003,7 @@ class Surface(rqsb.BaseSurface):
         assert ref_depth is not None, 'no z values found for vertical rescaling of surface'
         self.triangles = None  # invalidate any cached triangles & points in surface object
         self.points = None
+        self.normal_vector = None
         for patch in self.patch_list:
             patch.vertical_rescale_points(ref_depth, scaling_factor)
 
-- 
2.43.0


From 25acbee0b8944720febe87b9f902cdca2b7bce85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:12 +0000
Subject: [PATCH 090/142] fix: keep all attributes of inherited properties, and
 copy what they depend on

---
 resqpy/derived_model/_coarsened_grid.py     |  6 +-
 resqpy/derived_model/_common.py             | 32 +++++++--
 resqpy/derived_model/_extract_box.py        | 46 ++++++------
 resqpy/derived_model/_refined_grid.py       | 17 +++--
 resqpy/property/grid_property_collection.py | 80 +++++++++++++++------
 5 files changed, 120 insertions(+), 61 deletions(-)

diff --git a/resqpy/derived_model/_coarsened_grid.py b/resqpy/derived_model/_coarsened_grid.py
index 54a7475..6747308 100644
--- a/resqpy/derived_model/_coarsened_grid.py
+++ b/resqpy/derived_model/_coarsened_grid.py
@@ -150,6 +150,7 @@ def coarsened_grid(epc_file,
                 coarsening = fine_coarse,
                 realization = inherit_realization,
                 copy_all_realizations = inherit_all_realizations)
+            rqdm_c._copy_property_dependencies(collection, source_grid.model, grid.model)
 
     _set_parent_window_in_grid(set_parent_window, source_grid, grid, fine_coarse)
 
@@ -165,8 +166,7 @@ def coarsened_grid(epc_file,
                            grid_title = new_grid_title,
                            mode = 'w')
     else:
-        ext_uuid, _ = model.h5_uuid_and_path_for_node(rqet.find_nested_tags(source_grid.root, ['Geometry', 'Points']),
-                                                      'Coordinates')
+        ext_uuid = rqdm_c._ext_uuid_for_grid(model, source_grid)
         rqdm_c._write_grid(epc_file,
                            grid,
                            ext_uuid = ext_uuid,
@@ -183,7 +183,7 @@ def _set_parent_window_in_grid(set_parent_window, source_grid, grid, fine_coarse
         if isinstance(set_parent_window, str):
             if set_parent_window == 'grandparent':
                 assert fine_coarse.within_fine_box is None or (np.all(fine_coarse.within_fine_box[0] == 0) and
-                                                               np.all(fine_coarse.within_fine_box[1]) == source_grid.extent_kji - 1),  \
+                                                               np.all(fine_coarse.within_fine_box[1] == np.array(source_grid.extent_kji) - 1)),  \
                    'attempt to set grandparent window for grid when parent window is present'
                 source_fine_coarse = source_grid.parent_window
                 if source_fine_coarse is not None and (source_fine_coarse.within_fine_box is not None or
diff --git a/resqpy/derived_model/_common.py b/resqpy/derived_model/_common.py
index f0b3f6c..99b45c7 100644
--- a/resqpy/derived_model/_common.py
+++ b/resqpy/derived_model/_common.py
@@ -9,6 +9,7 @@ import numpy as np
 import resqpy.crs as rqc
 import resqpy.grid as grr
 import resqpy.model as rq
+import resqpy.olio.uuid as bu
 import resqpy.olio.xml_et as rqet
 import resqpy.property as rqp
 
@@ -67,14 +68,33 @@ def _prepare_simple_inheritance(grid, source_grid, inherit_properties, inherit_r
             collection.set_grid(grid)
             collection.extend_imported_list_copying_properties_from_other_grid_collection(
                 source_collection, realization = inherit_realization, copy_all_realizations = inherit_all_realizations)
-        if source_grid.model is not grid.model:
-            uuids = source_collection.time_series_uuid_list(sort_list = False)
-            uuids += source_collection.string_lookup_uuid_list(sort_list = False)
-            for uuid in uuids:
-                grid.model.copy_uuid_from_other_model(source_grid.model, uuid)
+            _copy_property_dependencies(collection, source_grid.model, grid.model)
     return collection
 
 
+def _ext_uuid_for_grid(model, grid):
+    """Returns uuid of the hdf5 external part holding the grid's points, or the model's default if there are none."""
+    points_node = rqet.find_nested_tags(grid.root, ['Geometry', 'Points'])
+    if points_node is None or rqet.find_tag(points_node, 'Coordinates') is None:  # eg. regular grid
+        return model.h5_uuid()
+    ext_uuid, _ = model.h5_uuid_and_path_for_node(points_node, 'Coordinates')
+    return ext_uuid
+
+
+def _copy_property_dependencies(collection, source_model, model):
+    """Copies objects referred to by nascent properties (time series, string lookup, property kind) between models."""
+    if source_model is model or not collection.imported_list:
+        return
+    uuids = []
+    for attributes in collection.imported_list:
+        for uuid in (attributes[16], attributes[19], attributes[20]):  # property kind, time series & string lookup
+            if uuid is not None and not bu.uuid_in_list(uuid, uuids):
+                uuids.append(uuid)
+    for uuid in uuids:
+        if model.part_for_uuid(uuid) is None and source_model.part_for_uuid(uuid) is not None:
+            model.copy_uuid_from_other_model(source_model, uuid, consolidate = False)
+
+
 def _write_grid(epc_file,
                 grid,
                 ext_uuid = None,
@@ -147,6 +167,8 @@ def _write_grid(epc_file,
         grid.model = model
         grid.crs_uuid = model.uuid_for_root(crs_root)
         grid.crs = rqc.Crs(model, uuid = model.crs_uuid)
+        if property_collection is not None:
+            _copy_property_dependencies(property_collection, working_model, model)
     log.debug('write_grid(): number of starting parts: ' + str(model.number_of_parts()))
 
     if grid.inactive is not None and geometry:
diff --git a/resqpy/derived_model/_extract_box.py b/resqpy/derived_model/_extract_box.py
index 8d0347d..29003cc 100644
--- a/resqpy/derived_model/_extract_box.py
+++ b/resqpy/derived_model/_extract_box.py
@@ -109,7 +109,8 @@ def extract_box(epc_file = None,
     source_grid.cache_all_geometry_arrays()
 
     # determine cell geometry is defined
-    if hasattr(source_grid, 'array_cell_geometry_is_defined'):
+    if hasattr(source_grid,
+               'array_cell_geometry_is_defined') and source_grid.array_cell_geometry_is_defined is not None:
         grid.array_cell_geometry_is_defined = _array_box(source_grid.array_cell_geometry_is_defined, box)
         grid.geometry_defined_for_all_cells_cached = np.all(grid.array_cell_geometry_is_defined)
     else:
@@ -117,8 +118,11 @@ def extract_box(epc_file = None,
 
     # copy info for pillar geometry is defined
     grid.geometry_defined_for_all_pillars_cached = source_grid.geometry_defined_for_all_pillars_cached
-    if hasattr(source_grid, 'array_pillar_geometry_is_defined'):
-        grid.array_pillar_geometry_is_defined = _array_box(source_grid.array_pillar_geometry_is_defined, box)
+    if hasattr(source_grid,
+               'array_pillar_geometry_is_defined') and source_grid.array_pillar_geometry_is_defined is not None:
+        grid.array_pillar_geometry_is_defined = source_grid.array_pillar_geometry_is_defined[box[0, 1]:box[1, 1] + 2,
+                                                                                             box[0, 2]:box[1, 2] +
+                                                                                             2].copy()
         grid.geometry_defined_for_all_pillars_cached = np.all(grid.array_pillar_geometry_is_defined)
 
     # get reference to points for source grid geometry
@@ -155,8 +159,7 @@ def extract_box(epc_file = None,
                            grid_title = new_grid_title,
                            mode = 'w')
     else:
-        ext_uuid, _ = model.h5_uuid_and_path_for_node(rqet.find_nested_tags(source_grid.root, ['Geometry', 'Points']),
-                                                      'Coordinates')
+        ext_uuid = rqdm_c._ext_uuid_for_grid(model, source_grid)
         rqdm_c._write_grid(epc_file,
                            grid,
                            ext_uuid = ext_uuid,
@@ -259,6 +262,7 @@ def _inherit_collection(source_grid, grid, inherit_properties, box, inherit_real
                 box = box,
                 realization = inherit_realization,
                 copy_all_realizations = inherit_all_realizations)
+            rqdm_c._copy_property_dependencies(collection, source_grid.model, grid.model)
     return collection
 
 
@@ -277,27 +281,21 @@ def _process_split_pillars(source_grid, grid, box, pillar_box):
     local_cols_array = np.zeros(len(source_grid.cols_for_split_pillars), dtype = int)
     local_cols_cl = np.zeros(len(source_grid.split_pillar_indices_cached), dtype = int)
     local_index = 0
-    for index in range(len(source_grid.split_pillar_indices_cached)):
-        source_pi = source_grid.split_pillar_indices_cached[index]
+    # note: a pillar might be split more than two ways, so all the extra pillars for a primary pillar are handled together
+    for source_pi in np.unique(source_grid.split_pillar_indices_cached):
         local_pi = _local_pillar_index(source_grid.extent_kji, box, source_pi)
         if local_pi is None:
             continue
         cols = _cols_for_pillar(source_grid.extent_kji, source_pi)
         local_cols = _cols_for_pillar(grid.extent_kji, local_pi)
-        if index == 0:
-            start = 0
-        else:
-            start = source_grid.cols_for_split_pillars_cl[index - 1]
-        finish = source_grid.cols_for_split_pillars_cl[index]
-        source_pis = np.zeros((4,), dtype = int)
-        for c_i in range(4):
-            if local_cols[c_i] < 0:
-                source_pis[c_i] = -1
-                continue
-            if cols[c_i] in source_grid.cols_for_split_pillars[start:finish]:
-                source_pis[c_i] = source_base_pillar_count + index
-            else:
-                source_pis[c_i] = source_pi
+        source_pis = np.full((4,), source_pi, dtype = int)
+        source_pis[local_cols < 0] = -1
+        for index in np.where(source_grid.split_pillar_indices_cached == source_pi)[0]:
+            start = 0 if index == 0 else source_grid.cols_for_split_pillars_cl[index - 1]
+            finish = source_grid.cols_for_split_pillars_cl[index]
+            for c_i in range(4):
+                if local_cols[c_i] >= 0 and cols[c_i] in source_grid.cols_for_split_pillars[start:finish]:
+                    source_pis[c_i] = source_base_pillar_count + index
         unique_source_pis = np.unique(source_pis)
         unique_count = len(unique_source_pis)
         unique_index = 0
@@ -313,15 +311,15 @@ def _process_split_pillars(source_grid, grid, box, pillar_box):
         if unique_count <= 0:
             continue
         while unique_count > 0:
-            source_pi = unique_source_pis[unique_index]
-            extra_points[:, local_index, :] = source_points[pillar_box[0, 0]:pillar_box[1, 0] + 1, source_pi, :]
+            split_pi = unique_source_pis[unique_index]
+            extra_points[:, local_index, :] = source_points[pillar_box[0, 0]:pillar_box[1, 0] + 1, split_pi, :]
             spi_array[local_index] = local_pi
             if local_index == 0:
                 lc_index = 0
             else:
                 lc_index = local_cols_cl[local_index - 1]
             for c_i in range(4):
-                if source_pis[c_i] == source_pi and local_cols[c_i] >= 0:
+                if source_pis[c_i] == split_pi and local_cols[c_i] >= 0:
                     local_cols_array[lc_index] = local_cols[c_i]
                     lc_index += 1
             local_cols_cl[local_index] = lc_index
diff --git a/resqpy/derived_model/_refined_grid.py b/resqpy/derived_model/_refined_grid.py
index 1accb0b..2660d4f 100644
--- a/resqpy/derived_model/_refined_grid.py
+++ b/resqpy/derived_model/_refined_grid.py
@@ -134,8 +134,7 @@ def refined_grid(epc_file,
                            grid_title = new_grid_title,
                            mode = 'w')
     else:
-        ext_uuid, _ = model.h5_uuid_and_path_for_node(rqet.find_nested_tags(source_grid.root, ['Geometry', 'Points']),
-                                                      'Coordinates')
+        ext_uuid = rqdm_c._ext_uuid_for_grid(model, source_grid)
         rqdm_c._write_grid(epc_file,
                            grid,
                            ext_uuid = ext_uuid,
@@ -187,10 +186,13 @@ def _refined_faulted_grid(model, source_grid, fine_coarse):
                 fine_cp[fine_k_base : fine_k_base + k_ratio, fine_j_base : fine_j_base + j_ratio, fine_i_base : fine_i_base + i_ratio, 1, 1, 1] =  \
                    shared_fine_points[1:, 1:, 1:]
 
-    return rqi.grid_from_cp(model,
+    grid = rqi.grid_from_cp(model,
                             fine_cp,
                             source_grid.crs_uuid,
                             ijk_handedness = 'right' if source_grid.grid_is_right_handed else 'left')
+    grid.k_direction_is_down = source_grid.k_direction_is_down
+    grid.inactive = None  # discard all active mask, as it would displace any inherited active property
+    return grid
 
 
 def _refined_unfaulted_grid(model, source_grid, fine_coarse):
@@ -336,6 +338,7 @@ def _inherit_properties(source_grid, grid, fine_coarse, inherit_realization, inh
             refinement = fine_coarse,
             realization = inherit_realization,
             copy_all_realizations = inherit_all_realizations)
+        rqdm_c._copy_property_dependencies(collection, source_grid.model, grid.model)
     return collection
 
 
@@ -344,7 +347,7 @@ def _set_parent_window(set_parent_window, source_grid, grid, fine_coarse):
     if isinstance(set_parent_window, str):
         if set_parent_window == 'grandparent':
             assert fine_coarse.within_coarse_box is None or (np.all(fine_coarse.within_coarse_box[0] == 0) and
-                                                             np.all(fine_coarse.within_coarse_box[1]) == source_grid.extent_kji - 1),  \
+                                                             np.all(fine_coarse.within_coarse_box[1] == np.array(source_grid.extent_kji) - 1)),  \
                'attempt to set grandparent window for grid when parent window is present'
             source_fine_coarse = source_grid.parent_window
             if source_fine_coarse is not None and (source_fine_coarse.within_fine_box is not None or
@@ -382,13 +385,13 @@ def _establish_models_and_source_grid(epc_file, new_epc_file, source_grid, sourc
                 source_grid = model_in.grid()
             else:
                 log.debug('selecting source grid from existing epc based on uuid')
-                source_grid = grr.Grid(model_in, uuid = source_grid_uuid)
+                source_grid = grr.any_grid(model_in, uuid = source_grid_uuid)
         else:
             if source_grid_uuid is not None:
                 assert bu.matching_uuids(source_grid_uuid, source_grid.uuid)
             grid_uuid = source_grid.uuid
             log.debug('reloading source grid from existing epc file')
-            source_grid = grr.Grid(model_in, uuid = grid_uuid)
+            source_grid = grr.any_grid(model_in, uuid = grid_uuid)
         if model is None:
             model = model_in
     else:
@@ -397,4 +400,6 @@ def _establish_models_and_source_grid(epc_file, new_epc_file, source_grid, sourc
     assert model is not None
     assert source_grid is not None
     assert source_grid.grid_representation in ['IjkGrid', 'IjkBlockGrid']
+    if source_grid.grid_representation == 'IjkBlockGrid':
+        source_grid.make_regular_points_cached()
     return epc_file, model, model_in, source_grid
diff --git a/resqpy/property/grid_property_collection.py b/resqpy/property/grid_property_collection.py
index badec26..97412bf 100644
--- a/resqpy/property/grid_property_collection.py
+++ b/resqpy/property/grid_property_collection.py
@@ -136,6 +136,9 @@ class GridPropertyCollection(rqp.PropertyCollection):
 
         _extend_imported_initial_assertions(other, box, refinement, coarsening)
 
+        if realization is not None:
+            copy_all_realizations = False
+
         if coarsening is not None:  # static upscaling of key property kinds, simple sampling of others
             _extend_imported_with_coarsening(self, other, box, coarsening, realization, copy_all_realizations,
                                              uncache_other_arrays)
@@ -772,18 +775,34 @@ class GridPropertyCollection(rqp.PropertyCollection):
                                                           nan_substitute_value = nan_substitute_value)
 
 
+# the IJK grid axes (KJI order) over which arrays for indexable elements can be subjected to a box
+_box_axes = {'cells': (0, 1, 2), 'columns': (1, 2), 'layers': (0,)}
+
+
 def _array_box(collection, part, box = None, uncache_other_arrays = True):
     full_array = collection.cached_part_array_ref(part)
     if box is None:
         a = full_array.copy()
     else:
-        a = full_array[box[0, 0]:box[1, 0] + 1, box[0, 1]:box[1, 1] + 1, box[0, 2]:box[1, 2] + 1].copy()
+        box_slices = tuple(slice(box[0, axis], box[1, axis] + 1) for axis in range(3))
+        axes = _box_axes[collection.indexable_for_part(part)]
+        a = full_array[tuple(box_slices[axis] for axis in axes)].copy()
     full_array = None
     if uncache_other_arrays:
         collection.uncache_part_array(part)
     return a
 
 
+def _to_be_coarsened(info, realization, copy_all_realizations):
+    if not copy_all_realizations and info[0] != realization:
+        return False
+    # todo: appropriate coarsening of data for other indexable elements, and of vector data
+    if info[6] != 'cells' or info[5] != 1 or info[21]:
+        log.warning(f'property for {info[6]} not copied when coarsening: {info[10]}')
+        return False
+    return True
+
+
 def _coarsening_sample(coarsening, a):
     # for now just take value from first cell in box
     # todo: find most common element in box
@@ -874,7 +893,8 @@ def _add_to_imported(collection, a, title, info, null_value = None, const_value
         realization = info[0],
         const_value = const_value,
         points = info[21],
-        time_series_uuid = info[11])
+        time_series_uuid = info[11],
+        string_lookup_uuid = info[16])
 
 
 def _extend_imported_initial_assertions(other, box, refinement, coarsening):
@@ -951,7 +971,13 @@ def _extend_imported_coarsen_rock_volume(source_rv, other, box, collection, real
                                          coarsening, copy_all_realizations):
     # bulk rock volume
     fine_rv_array = coarse_rv_array = None
-    if source_rv.number_of_parts() == 0:
+    for (part, info) in source_rv.dict.items():
+        if not _to_be_coarsened(info, realization, copy_all_realizations):
+            continue
+        fine_rv_array = _array_box(other, part, box = box, uncache_other_arrays = uncache_other_arrays)
+        coarse_rv_array = _coarsening_sum(coarsening, fine_rv_array)
+        _add_to_imported(collection, coarse_rv_array, 'coarsened from grid ' + str(other.support.uuid), info)
+    if fine_rv_array is None:
         log.debug('computing bulk rock volume from fine and coarse grid geometries')
         source_rv_array = other.support.volume()
         if box is None:
@@ -959,13 +985,6 @@ def _extend_imported_coarsen_rock_volume(source_rv, other, box, collection, real
         else:
             fine_rv_array = source_rv_array[box[0, 0]:box[1, 0] + 1, box[0, 1]:box[1, 1] + 1, box[0, 2]:box[1, 2] + 1]
         coarse_rv_array = collection.support.volume()
-    else:
-        for (part, info) in source_rv.dict.items():
-            if not copy_all_realizations and info[0] != realization:
-                continue
-            fine_rv_array = _array_box(other, part, box = box, uncache_other_arrays = uncache_other_arrays)
-            coarse_rv_array = _coarsening_sum(coarsening, fine_rv_array)
-            _add_to_imported(collection, coarse_rv_array, 'coarsened from grid ' + str(other.support.uuid), info)
 
     return fine_rv_array, coarse_rv_array
 
@@ -977,7 +996,7 @@ def _extend_imported_coarsen_ntg(source_ntg, other, box, collection, realization
     # note that coarsened ntg values may exceed one when reference bulk rock volumes are from grid geometries
     fine_ntg_array = coarse_ntg_array = None
     for (part, info) in source_ntg.dict.items():
-        if not copy_all_realizations and info[0] != realization:
+        if not _to_be_coarsened(info, realization, copy_all_realizations):
             continue
         fine_ntg_array = _array_box(other, part, box = box, uncache_other_arrays = uncache_other_arrays)
         coarse_ntg_array = _coarsening_weighted_mean(coarsening,
@@ -997,7 +1016,7 @@ def _extend_imported_nrv_arrays(fine_ntg_array, coarse_ntg_array, fine_rv_array,
         coarse_nrv_array = coarse_rv_array
     else:
         fine_nrv_array = fine_rv_array * fine_ntg_array
-        coarse_nrv_array = coarse_rv_array * coarse_ntg_array
+        coarse_nrv_array = None if coarse_rv_array is None else coarse_rv_array * coarse_ntg_array
     return fine_nrv_array, coarse_nrv_array
 
 
@@ -1005,7 +1024,7 @@ def _extend_imported_coarsen_poro(source_poro, other, box, collection, realizati
                                   copy_all_realizations, fine_nrv_array, coarse_nrv_array):
     fine_poro_array = coarse_poro_array = None
     for (part, info) in source_poro.dict.items():
-        if not copy_all_realizations and info[0] != realization:
+        if not _to_be_coarsened(info, realization, copy_all_realizations):
             continue
         fine_poro_array = _array_box(other, part, box = box, uncache_other_arrays = uncache_other_arrays)
         coarse_poro_array = _coarsening_weighted_mean(coarsening,
@@ -1026,10 +1045,11 @@ def _extend_imported_coarsen_sat(source_sat, other, box, collection, realization
     fine_sat_weight = fine_nrv_array
     coarse_sat_weight = coarse_nrv_array
     if fine_poro_array is not None:
-        fine_sat_weight *= fine_poro_array
-        coarse_sat_weight *= coarse_poro_array
+        fine_sat_weight = fine_sat_weight * fine_poro_array
+        if coarse_sat_weight is not None:
+            coarse_sat_weight = coarse_sat_weight * coarse_poro_array
     for (part, info) in source_sat.dict.items():
-        if not copy_all_realizations and info[0] != realization:
+        if not _to_be_coarsened(info, realization, copy_all_realizations):
             continue
         fine_sat_array = _array_box(other, part, box = box, uncache_other_arrays = uncache_other_arrays)
         coarse_sat_array = _coarsening_weighted_mean(coarsening,
@@ -1045,7 +1065,7 @@ def _extend_imported_coarsen_perm(source_perm, other, box, collection, realizati
     # permeabilities
     # todo: use more harmonic, arithmetic mean instead of just bulk rock volume weighted; consider ntg
     for (part, info) in source_perm.dict.items():
-        if not copy_all_realizations and info[0] != realization:
+        if not _to_be_coarsened(info, realization, copy_all_realizations):
             continue
         fine_perm_array = _array_box(other, part, box = box, uncache_other_arrays = uncache_other_arrays)
         coarse_perm_array = _coarsening_weighted_mean(coarsening,
@@ -1063,7 +1083,7 @@ def _extend_imported_coarsen_lengths(other, box, collection, realization, uncach
                                                                 realization = realization,
                                                                 property_kind = 'cell length')
     for (part, info) in source_cell_lengths.dict.items():
-        if not copy_all_realizations and info[0] != realization:
+        if not _to_be_coarsened(info, realization, copy_all_realizations):
             continue
         fine_cl_array = _array_box(other, part, box = box, uncache_other_arrays = uncache_other_arrays)
         assert info[5] == 1  # count
@@ -1084,7 +1104,7 @@ def _extend_imported_coarsen_other(other, box, collection, realization, uncache_
     handled_kinds = ('rock volume', 'net to gross ratio', 'porosity', 'saturation', 'permeability rock',
                      'rock permeability', 'cell length')
     for (part, info) in other.dict.items():
-        if not copy_all_realizations and info[0] != realization:
+        if not _to_be_coarsened(info, realization, copy_all_realizations):
             continue
         if info[7] in handled_kinds:
             continue
@@ -1096,7 +1116,11 @@ def _extend_imported_coarsen_other(other, box, collection, realization, uncache_
                                                               coarse_weight = coarse_rv_array)
         else:
             coarse_ordinary_array = _coarsening_sample(coarsening, fine_ordinary_array)
-        _add_to_imported(collection, coarse_ordinary_array, 'coarsened from grid ' + str(other.support.uuid), info)
+        _add_to_imported(collection,
+                         coarse_ordinary_array,
+                         'coarsened from grid ' + str(other.support.uuid),
+                         info,
+                         null_value = None if info[4] else info[19])
 
 
 def _extend_imported_no_coarsening(collection, other, box, refinement, realization, copy_all_realizations,
@@ -1116,6 +1140,14 @@ def _extend_imported_no_coarsening_single(source_collection, part, info, collect
     if not copy_all_realizations and info[0] != realization:
         return
 
+    if box is not None and info[6] not in _box_axes:
+        log.warning(f'property for {info[6]} not copied when boxing: {info[10]}')
+        return
+    if refinement is not None and (info[6] != 'cells' or info[5] != 1 or info[21]):
+        # todo: appropriate refinement of data for other indexable elements, and of vector data
+        log.warning(f'property for {info[6]} not copied when refining: {info[10]}')
+        return
+
     const_value = info[20]
     if const_value is None:
         a = _array_box(source_collection, part, box = box, uncache_other_arrays = uncache_other_arrays)
@@ -1130,10 +1162,11 @@ def _extend_imported_no_coarsening_single(source_collection, part, info, collect
         'copied from grid ' + str(other.support.uuid),
         info[10],  # citation_title
         discrete = not info[4],
-        indexable_element = 'cells',
+        indexable_element = info[6],
+        count = info[5],
         uom = info[15],
         time_index = info[12],
-        null_value = None,  # todo: extract from other's xml
+        null_value = None if info[4] else info[19],
         property_kind = info[7],
         local_property_kind_uuid = info[17],
         facet_type = info[8],
@@ -1141,7 +1174,8 @@ def _extend_imported_no_coarsening_single(source_collection, part, info, collect
         realization = info[0],
         const_value = const_value,
         points = info[21],
-        time_series_uuid = info[11])
+        time_series_uuid = info[11],
+        string_lookup_uuid = info[16])
 
 
 def _extend_imported_no_coarsening_single_resampling(a, info, collection, refinement):
-- 
2.43.0


From 132c1090847d80da438e423df69644419eba355c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:12 +0000
Subject: [PATCH 091/142] fix: copy of grid uses the crs within the target
 model

---
 resqpy/derived_model/_copy_grid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/resqpy/derived_model/_copy_grid.py b/resqpy/derived_model/_copy_grid.py
index 4a17778..d0e2c46 100644
--- a/resqpy/derived_model/_copy_grid.py
+++ b/resqpy/derived_model/_copy_grid.py
@@ -49,7 +49,9 @@ def copy_grid(source_grid, target_model = None, copy_crs = True):
     if target_model is source_grid.model:
         grid.crs = rqc.Crs(model, uuid = grid.crs_uuid)
     elif copy_crs and source_grid.crs_uuid is not None:
-        model.duplicate_node(source_grid.model.root_for_uuid(source_grid.crs_uuid), add_as_part = True)
+        if target_model.part_for_uuid(source_grid.crs_uuid) is None:
+            target_model.duplicate_node(source_grid.model.root_for_uuid(source_grid.crs_uuid), add_as_part = True)
+        grid.crs = rqc.Crs(target_model, uuid = grid.crs_uuid)
     else:
         grid.crs = None
 
-- 
2.43.0


From 530998f6cab28c5921157066fbdc925b41057a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:12 +0000
Subject: [PATCH 092/142] fix: zone base layers and single zone range in zonal
 grid

---
 resqpy/derived_model/_zonal_grid.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/resqpy/derived_model/_zonal_grid.py b/resqpy/derived_model/_zonal_grid.py
index e169f0a..00ea651 100644
--- a/resqpy/derived_model/_zonal_grid.py
+++ b/resqpy/derived_model/_zonal_grid.py
@@ -88,12 +88,14 @@ def zonal_grid(epc_file,
         for (zone_min_k0, zone_max_k0, zone) in zone_layer_range_list:
             log.info('zone id {0:1d} covers layers {1:1d} to {2:1d}'.format(zone, zone_min_k0 + 1, zone_max_k0 + 1))
     else:
+        if zone_layer_range_list is not None:
+            k0_min, k0_max = zone_layer_range_list[0][:2]
         zone_layer_range_list = [(k0_min, k0_max, 0)]
         zone_count = 1
     assert zone_count > 0, 'unexpected lack of zones'
 
     # create a new, empty grid object
-    is_regular = grr.is_regular_grid(source_grid.root) and single_layer_mode
+    is_regular = grr.is_regular_grid(source_grid.root) and single_layer_mode and k0_min == 0
     grid = _empty_grid(model, source_grid, is_regular, k0_min, k0_max, zone_count)
 
     # aggregate inactive cell mask depending on laissez faire argument
@@ -222,7 +224,7 @@ def _scan_columns_for_reference_geometry(source_grid, grid, zone_layer_range_lis
         zk0_min, zk0_max = zone_layer_range_list[zone_i][0:2]
         for j in range(grid.nj):
             for i in range(grid.ni):
-                if grid.inactive[zone_i, j, i]:
+                if grid.inactive is not None and grid.inactive[zone_i, j, i]:
                     continue
                 if zone_i == 0:
                     for k in range(zk0_min, zk0_max + 1):
@@ -232,7 +234,7 @@ def _scan_columns_for_reference_geometry(source_grid, grid, zone_layer_range_lis
                                     pillar = grid.pillars_for_column[j, i, jp, ip]
                                     grid.points_cached[0, pillar] = source_points[k, pillar]
                             break
-                for k in range(zk0_max + 1, zk0_min - 1, -1):
+                for k in range(zk0_max, zk0_min - 1, -1):
                     if no_cgid or source_grid.array_cell_geometry_is_defined[k, j, i]:
                         for jp in range(2):
                             for ip in range(2):
@@ -303,8 +305,7 @@ def _process_geometry(source_grid, grid, single_layer_mode, k0_min, k0_max, zone
             for zone_i in range(zone_count):
                 if zone_i == 0:
                     grid.points_cached[0] = source_points[zone_layer_range_list[zone_i][0]]
-                grid.points_cached[zone_i + 1] = source_points[zone_layer_range_list[zone_i]
-                                                               [1]]  # or could use 0th element of tuple for zone_i+1
+                grid.points_cached[zone_i + 1] = source_points[min(zone_layer_range_list[zone_i][1] + 1, source_grid.nk)]
     elif not grid.has_split_coordinate_lines:
         log.debug('scanning columns (unsplit pillars) for reference geometry')
         # fill in geometry: todo: replace with array operations if possible
-- 
2.43.0


From 02462e60a5fb5c24a0d6ec5a4346b3e28e1eb5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:12 +0000
Subject: [PATCH 093/142] fix: layer gaps and inactive layers in
 zone_layer_ranges_from_array

---
 resqpy/derived_model/_zone_layer_ranges_from_array.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/derived_model/_zone_layer_ranges_from_array.py b/resqpy/derived_model/_zone_layer_ranges_from_array.py
index 394a00e..03dd491 100644
--- a/resqpy/derived_model/_zone_layer_ranges_from_array.py
+++ b/resqpy/derived_model/_zone_layer_ranges_from_array.py
@@ -56,7 +56,7 @@ def zone_layer_ranges_from_array(zone_array, min_k0 = 0, max_k0 = None, use_domi
                 break
         # require all active cells in zone layer range to be for this zone
         for k0 in range(zone_min_k0, zone_max_k0 + 1):
-            assert np.all(single_zone_mask[k0]), 'unacceptable zone variation with layer ' + str(k0 + 1)
+            assert np.all(np.ma.filled(single_zone_mask[k0], True)), 'unacceptable zone variation with layer ' + str(k0 + 1)
         zone_layer_range_list.append((zone_min_k0, zone_max_k0, zone))
     assert len(zone_layer_range_list) > 0, 'no zone layer ranges derived from zone array'
     zone_layer_range_list.sort()
@@ -66,7 +66,7 @@ def zone_layer_ranges_from_array(zone_array, min_k0 = 0, max_k0 = None, use_domi
         if zone_layer_range_list[zone_i][0] > zone_layer_range_list[zone_i - 1][1] + 1:
             log.warning('gap in zonal layer ranges, missing layer(s) being arbitrarily assigned to zone below'
                        )  # todo: add more info to log
-            zone_layer_range_list[zone_i][0] = zone_layer_range_list[zone_i - 1][1] + 1
+            zone_layer_range_list[zone_i] = (zone_layer_range_list[zone_i - 1][1] + 1,) + zone_layer_range_list[zone_i][1:]
     return zone_layer_range_list
 
 
-- 
2.43.0


From f7dd0882034784a723398d2bdb5c7433c3ba0c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:12 +0000
Subject: [PATCH 094/142] fix: adding faults from polylines or lists

---
 resqpy/derived_model/_add_faults.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/resqpy/derived_model/_add_faults.py b/resqpy/derived_model/_add_faults.py
index ac5e494..b2be6a2 100644
--- a/resqpy/derived_model/_add_faults.py
+++ b/resqpy/derived_model/_add_faults.py
@@ -197,6 +197,7 @@ def _fault_from_pillar_list(grid, full_pillar_list, delta_throw_left, delta_thro
         grid.split_pillar_indices_cached = np.array([], dtype = int)
         grid.cols_for_split_pillars = np.array([], dtype = int)
         grid.cols_for_split_pillars_cl = np.array([], dtype = int)
+        grid.split_pillars_count = 0
         grid.has_split_coordinate_lines = True
     assert grid.points_cached.ndim == 3
     if len(grid.cols_for_split_pillars_cl) == 0:
@@ -231,7 +232,7 @@ def _pillar_vector(grid, p_index):
     k_top = 0
     while np.any(np.isnan(grid.points_cached[k_top, p_index])):
         k_top += 1
-    k_bot = grid.nk_plus_k_gaps - 1
+    k_bot = grid.nk_plus_k_gaps
     while np.any(np.isnan(grid.points_cached[k_bot, p_index])):
         k_bot -= 1
     if k_bot == k_top:  # following coded to treat None directions as downwards
@@ -269,7 +270,7 @@ def _create_gcs_if_requested(create_gcs, composite_face_set_dict, new_epc_file,
         if new_epc_file is not None:
             grid_uuid = grid.uuid
             model = rq.Model(new_epc_file)
-            grid = grr.Grid(model, root = model.root(uuid = grid_uuid), find_properties = False)
+            grid = grr.Grid(model, uuid = grid_uuid, find_properties = False)
         grid.set_face_set_gcs_list_from_dict(composite_face_set_dict, create_organizing_objects_where_needed = True)
         combined_gcs = grid.face_set_gcs_list[0]
         for gcs in grid.face_set_gcs_list[1:]:
@@ -345,6 +346,8 @@ def _processs_foursome(grid, n_primaries, primary, original_p, existing_foursome
                     grid.cols_for_split_pillars = _np_int_extended(grid.cols_for_split_pillars, natural_col)
                     cl += 1
                     grid.cols_for_split_pillars_cl[-1] = cl
+    if hasattr(grid, 'pillars_for_column'):  # cached mapping is no longer valid
+        delattr(grid, 'pillars_for_column')
     return cl
 
 
@@ -360,6 +363,9 @@ def _process_full_pillar_list_dict(grid, full_pillar_list_dict, left_right_throw
         log.debug(
             f'generating fault {fault_key} pillar count {len(full_pillar_list)}; left, right throw {left_right_throw}')
         _fault_from_pillar_list(grid, full_pillar_list, left_right_throw[0], left_right_throw[1])
+    if grid.has_split_coordinate_lines and len(grid.split_pillar_indices_cached) == 0:  # nothing has been split
+        grid.points_cached = grid.points_cached.reshape((grid.nk_plus_k_gaps + 1, grid.nj + 1, grid.ni + 1, 3))
+        grid.has_split_coordinate_lines = False
 
 
 def _populate_composite_face_sets_for_polylines(model, grid, polylines, lines_crs_uuid, grid_crs, lines_file_list,
-- 
2.43.0


From f3e547fa4fe394ef0dced776d0df50b56b6d303e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:12 +0000
Subject: [PATCH 095/142] fix: tolerance at triangle edges when intersecting
 lines with triangles

---
 resqpy/olio/intersection.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/resqpy/olio/intersection.py b/resqpy/olio/intersection.py
index 64e676a..ca168ee 100644
--- a/resqpy/olio/intersection.py
+++ b/resqpy/olio/intersection.py
@@ -178,7 +178,7 @@ def intersects_indices(single_line_intersects):
     return list(np.where(np.logical_not(np.isnan(single_line_intersects[..., 0])))[0])
 
 
-def line_set_triangles_intersects(line_ps, line_vs, triangles, line_segment = False):
+def line_set_triangles_intersects(line_ps, line_vs, triangles, line_segment = False, t_tol = 0.0):
     """Find the intersections of each of set of lines within each of a set of triangles in 3D space.
 
     arguments:
@@ -187,6 +187,8 @@ def line_set_triangles_intersects(line_ps, line_vs, triangles, line_segment = Fa
        triangles ((n, 3, 3) numpy array): three corners of each of the n triangles (final index is xyz)
        line_segment (boolean, default False): if True, each line is treated as a finite segment between
           p and p + v, and only intersections within the segment are included
+       t_tol (float, default 0.0): a fraction of the triangle size to use as a tolerance when determining
+          whether the intersection with the plane of the triangle is within the triangle
 
     returns:
        points ((c, n, 3) numpy array) of intersections of the lines within the triangles,
@@ -226,8 +228,9 @@ def line_set_triangles_intersects(line_ps, line_vs, triangles, line_segment = Fa
     np.divide(np.sum(np.cross(cp02s, cl_rvs) * lps_t0s, axis = 2), denoms, out = us, where = nz)  # shape (c, n)
     cp01s = p01s.reshape((1, n, 3)).repeat(c, axis = 0)  # shape (c, n, 3)
     np.divide(np.sum(np.cross(cl_rvs, cp01s) * lps_t0s, axis = 2), denoms, out = vs, where = nz)
-    ts[:] = np.where(np.logical_or(np.logical_or(us < 0.0, us > 1.0), np.logical_or(vs < 0.0, us + vs > 1.0)), np.nan,
-                     ts)
+    outside_u = np.logical_or(us < -t_tol, us > 1.0 + t_tol)
+    outside_v = np.logical_or(vs < -t_tol, us + vs > 1.0 + t_tol)
+    ts[:] = np.where(np.logical_or(outside_u, outside_v), np.nan, ts)
 
     intersects = np.empty((c, n, 3))
     intersects[:] = line_vs.reshape((c, 1, 3)) * np.repeat(ts, 3).reshape((c, n, 3)) + line_ps.reshape((c, 1, 3))
-- 
2.43.0


From a54a92785f943f062d7883d432fad30485a72066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:12 +0000
Subject: [PATCH 096/142] fix: drape_to_surface does not modify the surface it
 is given

---
 resqpy/derived_model/_drape_to_surface.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/resqpy/derived_model/_drape_to_surface.py b/resqpy/derived_model/_drape_to_surface.py
index 5f6cc65..780ac56 100644
--- a/resqpy/derived_model/_drape_to_surface.py
+++ b/resqpy/derived_model/_drape_to_surface.py
@@ -115,6 +115,8 @@ def drape_to_surface(epc_file,
         source_grid.crs = rqc.Crs(source_grid.model, uuid = source_grid.crs_uuid)
     if surface_crs != source_grid.crs:
         surface.triangles_and_points()
+        surface = copy.copy(surface)  # avoid modifying the points of the surface object passed as argument
+        surface.points = surface.points.copy()
         surface_crs.convert_array_to(source_grid.crs, surface.points)
 
     # take a copy of the grid
@@ -143,7 +145,8 @@ def drape_to_surface(epc_file,
 
     # compute intersections of all pillars with all triangles (sparse array returned with NaN for no intersection)
     log.debug('computing intersections of all pillars with all triangles')
-    intersects = meet.line_set_triangles_intersects(line_p, line_v, p[t])
+    # note: pillars often pass through triangle edges or vertices, hence use of a small tolerance
+    intersects = meet.line_set_triangles_intersects(line_p, line_v, p[t], t_tol = 1.0e-6)
 
     # reduce to a single intersection point per pillar; todo: flag multiple intersections with a warning
     log.debug('selecting last intersection for each pillar (there should be only one intersection anyway)')
@@ -178,7 +181,7 @@ def drape_to_surface(epc_file,
     if collection is None:
         collection = displacement_collection
     elif displacement_collection is not None:
-        collection.inherit_imported_list_from_other_collection(displacement_collection, copy_cached_arrays = False)
+        collection.inherit_imported_list_from_other_collection(displacement_collection)
 
     if new_grid_title is None or len(new_grid_title) == 0:
         new_grid_title = 'grid flexed from ' + str(rqet.citation_title_for_node(source_grid.root))
@@ -192,8 +195,7 @@ def drape_to_surface(epc_file,
                            grid_title = new_grid_title,
                            mode = 'w')
     else:
-        ext_uuid, _ = model.h5_uuid_and_path_for_node(rqet.find_nested_tags(source_grid.root, ['Geometry', 'Points']),
-                                                      'Coordinates')
+        ext_uuid = rqdm_c._ext_uuid_for_grid(model, source_grid)
         rqdm_c._write_grid(epc_file,
                            grid,
                            ext_uuid = ext_uuid,
-- 
2.43.0


From 76a736b55c48c395721055e0ce814524929e4fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:12 +0000
Subject: [PATCH 097/142] fix: derived grid does not share cached arrays with
 its source grid

---
 resqpy/derived_model/_fault_throw_scaling.py    | 2 +-
 resqpy/derived_model/_local_depth_adjustment.py | 2 +-
 resqpy/derived_model/_tilted_grid.py            | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/resqpy/derived_model/_fault_throw_scaling.py b/resqpy/derived_model/_fault_throw_scaling.py
index 3127b66..016aec7 100644
--- a/resqpy/derived_model/_fault_throw_scaling.py
+++ b/resqpy/derived_model/_fault_throw_scaling.py
@@ -141,7 +141,7 @@ def fault_throw_scaling(epc_file,
     if collection is None:
         collection = displacement_collection
     elif displacement_collection is not None:
-        collection.inherit_imported_list_from_other_collection(displacement_collection, copy_cached_arrays = False)
+        collection.inherit_imported_list_from_other_collection(displacement_collection)
 
     if new_grid_title is None or len(new_grid_title) == 0:
         new_grid_title = 'grid with fault throws scaled by ' + str(scaling_factor) + ' from ' +  \
diff --git a/resqpy/derived_model/_local_depth_adjustment.py b/resqpy/derived_model/_local_depth_adjustment.py
index 7c3b283..cb49573 100644
--- a/resqpy/derived_model/_local_depth_adjustment.py
+++ b/resqpy/derived_model/_local_depth_adjustment.py
@@ -166,7 +166,7 @@ def local_depth_adjustment(epc_file,
     if collection is None:
         collection = displacement_collection
     elif displacement_collection is not None:
-        collection.inherit_imported_list_from_other_collection(displacement_collection, copy_cached_arrays = False)
+        collection.inherit_imported_list_from_other_collection(displacement_collection)
 
     if new_grid_title is None or len(new_grid_title) == 0:
         new_grid_title = 'grid derived from {0} with local depth shift of {1:3.1f} applied'.format(
diff --git a/resqpy/derived_model/_tilted_grid.py b/resqpy/derived_model/_tilted_grid.py
index cd347f1..efe7ba6 100644
--- a/resqpy/derived_model/_tilted_grid.py
+++ b/resqpy/derived_model/_tilted_grid.py
@@ -82,7 +82,7 @@ def tilted_grid(epc_file,
     if collection is None:
         collection = displacement_collection
     elif displacement_collection is not None:
-        collection.inherit_imported_list_from_other_collection(displacement_collection, copy_cached_arrays = False)
+        collection.inherit_imported_list_from_other_collection(displacement_collection)
 
     if new_grid_title is None or len(new_grid_title) == 0:
         new_grid_title = 'tilted version ({0:4.2f} degree dip) of '.format(abs(dip)) + str(
-- 
2.43.0


From 93a777dfb36288b16a8cb10a4a5134a7a8d2ca10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:12 +0000
Subject: [PATCH 098/142] fix: surfaces generated from a grid use the crs of
 the grid

---
 resqpy/grid_surface/_blocked_well_populate.py |  4 ++--
 resqpy/grid_surface/_grid_skin.py             | 12 ++++++------
 resqpy/grid_surface/_grid_surface.py          | 14 +++++++-------
 resqpy/grid_surface/_trajectory_intersects.py |  4 ++--
 4 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/resqpy/grid_surface/_blocked_well_populate.py b/resqpy/grid_surface/_blocked_well_populate.py
index 9a167e0..a1c117c 100644
--- a/resqpy/grid_surface/_blocked_well_populate.py
+++ b/resqpy/grid_surface/_blocked_well_populate.py
@@ -292,7 +292,7 @@ def generate_surface_for_blocked_well_cells(blocked_well,
             composite_cp[cell_p] = cp
             cell_p += 1
         else:
-            cs = rqs.Surface(blocked_well.model)
+            cs = rqs.Surface(blocked_well.model, crs_uuid = grid.crs_uuid)
             cs.set_to_single_cell_faces_from_corner_points(cp, quad_triangles = quad_triangles)
             surface_list.append(cs)
 
@@ -300,7 +300,7 @@ def generate_surface_for_blocked_well_cells(blocked_well,
         return None
 
     if combined:
-        cs = rqs.Surface(blocked_well.model)
+        cs = rqs.Surface(blocked_well.model, crs_uuid = grid.crs_uuid)
         cs.set_to_multi_cell_faces_from_corner_points(composite_cp[:cell_p])
         return cs
 
diff --git a/resqpy/grid_surface/_grid_skin.py b/resqpy/grid_surface/_grid_skin.py
index c9d10c1..2f75d27 100644
--- a/resqpy/grid_surface/_grid_skin.py
+++ b/resqpy/grid_surface/_grid_skin.py
@@ -43,23 +43,23 @@ class GridSkin:
                     xyz_box[:, axis] = (xyz_box[1, axis], xyz_box[0, axis])
             min_x, min_y, min_z = xyz_box[0]
             max_x, max_y, max_z = xyz_box[1]
-            top_surf = rqs.Surface(grid.model)
+            top_surf = rqs.Surface(grid.model, crs_uuid = grid.crs_uuid)
             top_surf.set_to_horizontal_plane(0.0, xyz_box)
-            base_surf = rqs.Surface(grid.model)
+            base_surf = rqs.Surface(grid.model, crs_uuid = grid.crs_uuid)
             base_surf.set_to_horizontal_plane(grid.nk * grid.block_dxyz_dkji[0, 2], xyz_box)
-            j_minus_surf = rqs.Surface(grid.model)
+            j_minus_surf = rqs.Surface(grid.model, crs_uuid = grid.crs_uuid)
             corners = np.array([(min_x, min_y, min_z), (max_x, min_y, min_z), (min_x, min_y, max_z),
                                 (max_x, min_y, max_z)])
             j_minus_surf.set_to_triangle_pair(corners)
-            j_plus_surf = rqs.Surface(grid.model)
+            j_plus_surf = rqs.Surface(grid.model, crs_uuid = grid.crs_uuid)
             corners = np.array([(min_x, max_y, min_z), (max_x, max_y, min_z), (min_x, max_y, max_z),
                                 (max_x, max_y, max_z)])
             j_plus_surf.set_to_triangle_pair(corners)
-            i_minus_surf = rqs.Surface(grid.model)
+            i_minus_surf = rqs.Surface(grid.model, crs_uuid = grid.crs_uuid)
             corners = np.array([(min_x, min_y, min_z), (min_x, max_y, min_z), (min_x, min_y, max_z),
                                 (min_x, max_y, max_z)])
             i_minus_surf.set_to_triangle_pair(corners)
-            i_plus_surf = rqs.Surface(grid.model)
+            i_plus_surf = rqs.Surface(grid.model, crs_uuid = grid.crs_uuid)
             corners = np.array([(max_x, min_y, min_z), (max_x, max_y, min_z), (max_x, min_y, max_z),
                                 (max_x, max_y, max_z)])
             i_plus_surf.set_to_triangle_pair(corners)
diff --git a/resqpy/grid_surface/_grid_surface.py b/resqpy/grid_surface/_grid_surface.py
index 4fdf76e..da76e89 100644
--- a/resqpy/grid_surface/_grid_surface.py
+++ b/resqpy/grid_surface/_grid_surface.py
@@ -38,7 +38,7 @@ def generate_untorn_surface_for_layer_interface(grid,
        messed up.
     """
 
-    surf = rqs.Surface(grid.model)
+    surf = rqs.Surface(grid.model, crs_uuid = grid.crs_uuid)
     kp = 1 if ref_k_faces == 'base' else 0
     mesh = grid.horizon_points(ref_k0 = k0, heal_faults = True, kp = kp)
     if border is None or border <= 0.0:
@@ -94,7 +94,7 @@ def generate_torn_surface_for_layer_interface(grid, k0 = 0, ref_k_faces = 'top',
        single patch regardless.
     """
 
-    surf = rqs.Surface(grid.model)
+    surf = rqs.Surface(grid.model, crs_uuid = grid.crs_uuid)
     kp = 1 if ref_k_faces == 'base' else 0
     mesh = grid.split_horizon_points(ref_k0 = k0, kp = kp)
     surf.set_from_torn_mesh(mesh, quad_triangles = quad_triangles)
@@ -148,7 +148,7 @@ def generate_torn_surface_for_x_section(grid,
     else:
         x_sect_mesh = grid.split_gap_x_section_points(axis, ref_slice0 = ref_slice0, plus_face = plus_face)
 
-    surf = rqs.Surface(grid.model)
+    surf = rqs.Surface(grid.model, crs_uuid = grid.crs_uuid)
     surf.set_from_torn_mesh(x_sect_mesh, quad_triangles = quad_triangles)
 
     return surf
@@ -198,7 +198,7 @@ def generate_untorn_surface_for_x_section(grid,
 
     log.debug(f'x_sect_mesh.shape: {x_sect_mesh.shape}; grid.extent_kji: {grid.extent_kji}')
 
-    surf = rqs.Surface(grid.model)
+    surf = rqs.Surface(grid.model, crs_uuid = grid.crs_uuid)
     surf.set_from_irregular_mesh(x_sect_mesh, quad_triangles = quad_triangles)
 
     return surf
@@ -211,7 +211,7 @@ def point_is_within_cell(xyz, grid, kji0, cell_surface = None, false_on_pinchout
         return False
     if cell_surface is None:
         cp = grid.corner_points(kji0)
-        cell_surface = rqs.Surface(grid.model)
+        cell_surface = rqs.Surface(grid.model, crs_uuid = grid.crs_uuid)
         cell_surface.set_to_single_cell_faces_from_corner_points(cp, quad_triangles = True)
     t, p = cell_surface.triangles_and_points()
     triangles = p[t]
@@ -253,7 +253,7 @@ def create_column_face_mesh_and_surface(grid, col_ji0, axis, polarity, quad_tria
 
     if not as_single_layer and grid.k_gaps:
         col_face_mesh = None
-        col_face_surface = rqs.Surface(grid.model)
+        col_face_surface = rqs.Surface(grid.model, crs_uuid = grid.crs_uuid)
         mesh = np.empty((1, grid.nk, 2, 2, 3))
         mesh[0, :, 0, 0, :] = points[grid.k_raw_index_array, pillar_index_pair[0], :]
         mesh[0, :, 1, 0, :] = points[grid.k_raw_index_array, pillar_index_pair[1], :]
@@ -275,6 +275,6 @@ def create_column_face_mesh_and_surface(grid, col_ji0, axis, polarity, quad_tria
         col_face_mesh = rqs.Mesh(grid.model, xyz_values = col_face_xyz, crs_uuid = grid.crs_uuid)
         title = 'column face for j0,i0: ' + str(col_ji0[0]) + ',' + str(
             col_ji0[1]) + ' face ' + 'KJI'[axis] + '-+'[polarity]
-        col_face_surface = rqs.Surface(grid.model, mesh = col_face_mesh, quad_triangles = quad_triangles, title = title)
+        col_face_surface = rqs.Surface(grid.model, crs_uuid = grid.crs_uuid, mesh = col_face_mesh, quad_triangles = quad_triangles, title = title)
 
     return col_face_mesh, col_face_surface
diff --git a/resqpy/grid_surface/_trajectory_intersects.py b/resqpy/grid_surface/_trajectory_intersects.py
index 51f6c98..c08b9c7 100644
--- a/resqpy/grid_surface/_trajectory_intersects.py
+++ b/resqpy/grid_surface/_trajectory_intersects.py
@@ -268,7 +268,7 @@ def find_first_intersection_of_trajectory_with_layer_interface(trajectory,
     # log.debug('generating surface for layer: ' + str(k0) + ' ' + ref_k_faces)
     if is_regular:
         interface_depth = grid.block_dxyz_dkji[0, 2] * (k0 + (1 if ref_k_faces == 'base' else 0))
-        surface = rqs.Surface(grid.model)
+        surface = rqs.Surface(grid.model, crs_uuid = grid.crs_uuid)
         surface.set_to_horizontal_plane(interface_depth, grid.xyz_box())
     elif grid.has_split_coordinate_lines and not heal_faults:
         surface = rqgs.generate_torn_surface_for_layer_interface(grid,
@@ -313,7 +313,7 @@ def find_first_intersection_of_trajectory_with_cell_surface(trajectory,
     """Return first intersection with cell's surface found along a trajectory."""
 
     cp = grid.corner_points(kji0)
-    cell_surface = rqs.Surface(grid.model)
+    cell_surface = rqs.Surface(grid.model, crs_uuid = grid.crs_uuid)
     cell_surface.set_to_single_cell_faces_from_corner_points(cp, quad_triangles = quad_triangles)
     t, p = cell_surface.triangles_and_points()
     triangles = p[t]
-- 
2.43.0


From 7997fba76c1b714d2f37ea99710076777b14aff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:25 +0000
Subject: [PATCH 099/142] fix: numerical stability of vertical intercepts on
 steep edges

---
 resqpy/olio/vector_utilities.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/resqpy/olio/vector_utilities.py b/resqpy/olio/vector_utilities.py
index a296a88..17323d5 100644
--- a/resqpy/olio/vector_utilities.py
+++ b/resqpy/olio/vector_utilities.py
@@ -980,8 +980,7 @@ def vertical_intercept(x: float, x_values: np.ndarray, y_values: np.ndarray) ->
             y = y_values[0]
         else:
             m = (y_values[1] - y_values[0]) / (x_values[1] - x_values[0])
-            c = y_values[1] - m * x_values[1]
-            y = m * x + c
+            y = y_values[1] + m * (x - x_values[1])
     return y
 
 
@@ -1012,8 +1011,7 @@ def vertical_intercept_nan(x: float, x_value_0: float, x_value_1: float, y_value
             y = y_value_0
         else:
             m = (y_value_1 - y_value_0) / (x_value_1 - x_value_0)
-            c = y_value_1 - m * x_value_1
-            y = m * x + c
+            y = y_value_1 + m * (x - x_value_1)
     return y
 
 
@@ -1050,11 +1048,9 @@ def vertical_intercept_nan_yz(x: float, x_0: float, x_1: float, y_0: float, y_1:
         else:
             xr = x_1 - x_0
             m = (y_1 - y_0) / xr
-            c = y_1 - m * x_1
-            y = m * x + c
+            y = y_1 + m * (x - x_1)
             m = (z_1 - z_0) / xr
-            c = z_1 - m * x_1
-            z = m * x + c
+            z = z_1 + m * (x - x_1)
     return (y, z)
 
 
-- 
2.43.0


From 552a9428c78f365192984d3fce49af1ebf962f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:25 +0000
Subject: [PATCH 100/142] fix: find faces for surfaces: caller surface kept,
 units, sides and single layer extents

---
 resqpy/grid_surface/_find_faces.py | 55 +++++++++++++++++-------------
 1 file changed, 31 insertions(+), 24 deletions(-)

diff --git a/resqpy/grid_surface/_find_faces.py b/resqpy/grid_surface/_find_faces.py
index fdb8e4d..3e29d65 100644
--- a/resqpy/grid_surface/_find_faces.py
+++ b/resqpy/grid_surface/_find_faces.py
@@ -90,7 +90,7 @@ def find_faces_to_represent_surface_staffa(grid, surface, name, feature_type = "
         i_faces = None
 
     # log.debug('finding surface triangle boxes')
-    t, p = surface.triangles_and_points()
+    t, p = surface.triangles_and_points(copy = True)
     if not bu.matching_uuids(grid.crs_uuid, surface.crs_uuid):
         log.debug("converting from surface crs to grid crs")
         s_crs = rqc.Crs(surface.model, uuid = surface.crs_uuid)
@@ -263,6 +263,7 @@ def find_faces_to_represent_surface_regular(
         surface.make_all_clockwise_xy(reorient = True)
     t, p = surface.triangles_and_points()
     assert t is not None and p is not None, f"surface {surface.title} is empty"
+    p = p.copy()
     if agitate:
         if random_agitation:
             p += 1.0e-5 * (np.random.random(p.shape) - 0.5)
@@ -275,7 +276,6 @@ def find_faces_to_represent_surface_regular(
         log.debug("converting from surface crs to grid crs")
         s_crs = rqc.Crs(surface.model, uuid = surface.crs_uuid)
         s_crs.convert_array_to(grid.crs, p)
-        surface.crs_uuid = grid.crs.uuid
         log.debug(f"surface: {surface.title}; p0: {p[0]}; crs uuid: {surface.crs_uuid}")
         log.debug(f"surface min xyz: {np.min(p, axis = 0)}")
         log.debug(f"surface max xyz: {np.max(p, axis = 0)}")
@@ -333,6 +333,7 @@ def find_faces_to_represent_surface_regular(
     else:
         k_faces = None
         k_sides = None
+        k_offsets = None
         k_normals = None
 
     if progress_fn is not None:
@@ -350,7 +351,8 @@ def find_faces_to_represent_surface_regular(
             (t_count, grid.nk, grid.ni))
         del j_centres
         if consistent_side:
-            cwt = vec.clockwise_triangles(p, t, projection = "xz") >= 0.0
+            # note: sense is reversed for xz projection, to be consistent with xy and yz
+            cwt = vec.clockwise_triangles(p, t, projection = "xz") <= 0.0
         for j_t, j_k, j_i in np.stack(np.where(j_hits), axis = -1):
             xyz = meet.line_triangle_intersect(
                 centres[j_k, 0, j_i],
@@ -383,6 +385,7 @@ def find_faces_to_represent_surface_regular(
     else:
         j_faces = None
         j_sides = None
+        j_offsets = None
         j_normals = None
 
     if progress_fn is not None:
@@ -433,6 +436,7 @@ def find_faces_to_represent_surface_regular(
     else:
         i_faces = None
         i_sides = None
+        i_offsets = None
         i_normals = None
 
     if progress_fn is not None:
@@ -477,7 +481,7 @@ def find_faces_to_represent_surface_regular(
         log.debug(f"gcs count: {gcs.count}; all normals shape: {all_normals.shape}")
         assert all_normals.shape == (gcs.count, 3)
         if grid.crs.xy_units != grid.crs.z_units:
-            wam.convert_lengths(all_normals[:, 2], grid.crs.z_units, grid.crs.xy_units)
+            wam.convert_lengths(all_normals[:, 2], grid.crs.xy_units, grid.crs.z_units)
             all_normals = vec.unit_vectors(all_normals)
 
     if progress_fn is not None:
@@ -601,11 +605,10 @@ def find_faces_to_represent_surface_regular_dense_optimised(grid,
         grid.block_dxyz_dkji[1, 1],
         grid.block_dxyz_dkji[0, 2],
     )
-    triangles, points = surface.triangles_and_points()
+    triangles, points = surface.triangles_and_points(copy = True)
     t_dtype = np.int32 if len(triangles) < 2_000_000_000 else np.int64
     assert (triangles is not None and points is not None), f"surface {surface.title} is empty"
     if agitate:
-        points = points.copy()
         if random_agitation:
             points += 1.0e-5 * (np.random.random(points.shape) - 0.5)
         else:
@@ -617,7 +620,6 @@ def find_faces_to_represent_surface_regular_dense_optimised(grid,
         log.debug("converting from surface crs to grid crs")
         s_crs = rqc.Crs(surface.model, uuid = surface.crs_uuid)
         s_crs.convert_array_to(grid.crs, points)
-        surface.crs_uuid = grid.crs.uuid
         # log.debug(f'surface: {surface.title}; p0: {points[0]}; crs uuid: {surface.crs_uuid}')
         # log.debug(f'surface min xyz: {np.min(points, axis = 0)}')
         # log.debug(f'surface max xyz: {np.max(points, axis = 0)}')
@@ -786,9 +788,9 @@ def find_faces_to_represent_surface_regular_dense_optimised(grid,
     # NB. following assumes faces have been added to gcs in a particular order!
     if return_triangles:
         # log.debug('preparing triangles array')
-        k_tri_list = (np.empty((0,)) if k_triangles is None else k_triangles[_where_true(k_faces)])
-        j_tri_list = (np.empty((0,)) if j_triangles is None else j_triangles[_where_true(j_faces)])
-        i_tri_list = (np.empty((0,)) if i_triangles is None else i_triangles[_where_true(i_faces)])
+        k_tri_list = (np.empty((0,), dtype = np.int32) if k_triangles is None else k_triangles[_where_true(k_faces)])
+        j_tri_list = (np.empty((0,), dtype = np.int32) if j_triangles is None else j_triangles[_where_true(j_faces)])
+        i_tri_list = (np.empty((0,), dtype = np.int32) if i_triangles is None else i_triangles[_where_true(i_faces)])
         all_tris = np.concatenate((k_tri_list, j_tri_list, i_tri_list), axis = 0)
         # log.debug(f'gcs count: {gcs.count}; all triangles shape: {all_tris.shape}')
         assert all_tris.shape == (gcs.count,)
@@ -828,7 +830,9 @@ def find_faces_to_represent_surface_regular_dense_optimised(grid,
     if return_bisector:
         if is_curtain:
             log.debug("preparing columns bisector")
-            bisector = column_bisector_from_faces((grid.nj, grid.ni), j_faces[0], i_faces[0])
+            j_faces_ji = np.zeros((grid.nj - 1, grid.ni), dtype = bool) if j_faces is None else j_faces[0]
+            i_faces_ji = np.zeros((grid.nj, grid.ni - 1), dtype = bool) if i_faces is None else i_faces[0]
+            bisector = column_bisector_from_faces((grid.nj, grid.ni), j_faces_ji, i_faces_ji)
             # log.debug('finished preparing columns bisector')
         else:
             log.debug("preparing cells bisector")
@@ -982,7 +986,6 @@ def find_faces_to_represent_surface_regular_optimised(grid,
         log.debug("converting from surface crs to grid crs")
         s_crs = rqc.Crs(surface.model, uuid = surface.crs_uuid)
         s_crs.convert_array_to(grid.crs, points)
-        surface.crs_uuid = grid.crs.uuid
         # log.debug(f'surface: {surface.title}; p0: {points[0]}; crs uuid: {surface.crs_uuid}')
         # log.debug(f'surface min xyz: {np.min(points, axis = 0)}')
         # log.debug(f'surface max xyz: {np.max(points, axis = 0)}')
@@ -1066,18 +1069,17 @@ def find_faces_to_represent_surface_regular_optimised(grid,
             j_faces_kji0[:, 2] = j_hits[:, 2]
             if return_offsets:
                 j_offsets = (j_depths - j_faces.astype(np.float64) - 0.5) * dy
-            if return_depths:
-                j_depths[:] += 0.5
-                j_depths[:] *= dy
+            if return_depths:  # z value at cell centres of layer
+                j_depths = (j_hits[:, 1].astype(np.float64) + 0.5) * dz
             if is_curtain and grid.nk > 1:  # expand arrays to all layers
                 j_faces = np.repeat(np.expand_dims(j_faces_kji0, axis = 0), grid.nk, axis = 0)
                 j_faces[:, :, 0] = np.expand_dims(np.arange(grid.nk, dtype = np.int32), axis = -1)
                 j_faces_kji0 = j_faces.reshape((-1, 3))
-                j_triangles = np.repeat(j_triangles, grid.nk, axis = 0)
+                j_triangles = np.tile(j_triangles, grid.nk)
                 if return_offsets:
-                    j_offsets = np.repeat(j_offsets, grid.nk, axis = 0)
+                    j_offsets = np.tile(j_offsets, grid.nk)
                 if return_depths:
-                    j_depths = np.repeat(j_depths, grid.nk, axis = 0)
+                    j_depths = np.tile(j_depths, grid.nk)
             j_props = []
             if return_triangles:
                 j_props.append(j_triangles)
@@ -1118,18 +1120,17 @@ def find_faces_to_represent_surface_regular_optimised(grid,
             i_faces_kji0[:, 2] = i_faces
             if return_offsets:
                 i_offsets = (i_depths - i_faces.astype(np.float64) - 0.5) * dx
-            if return_depths:
-                i_depths[:] += 0.5
-                i_depths[:] *= dx
+            if return_depths:  # z value at cell centres of layer
+                i_depths = (i_hits[:, 1].astype(np.float64) + 0.5) * dz
             if is_curtain and grid.nk > 1:  # expand arrays to all layers
                 i_faces = np.repeat(np.expand_dims(i_faces_kji0, axis = 0), grid.nk, axis = 0)
                 i_faces[:, :, 0] = np.expand_dims(np.arange(grid.nk, dtype = np.int32), axis = -1)
                 i_faces_kji0 = i_faces.reshape((-1, 3))
-                i_triangles = np.repeat(i_triangles, grid.nk, axis = 0)
+                i_triangles = np.tile(i_triangles, grid.nk)
                 if return_offsets:
-                    i_offsets = np.repeat(i_offsets, grid.nk, axis = 0)
+                    i_offsets = np.tile(i_offsets, grid.nk)
                 if return_depths:
-                    i_depths = np.repeat(i_depths, grid.nk, axis = 0)
+                    i_depths = np.tile(i_depths, grid.nk)
             i_props = []
             if return_triangles:
                 i_props.append(i_triangles)
@@ -1570,6 +1571,8 @@ def shadow_from_face_indices(extent_kji, kji0):
     assert len(extent_kji) == 3
     limit = extent_kji[0] - 1  # maximum number of iterations needed to spead shadow
     shadow = np.zeros(extent_kji, dtype = np.int8)
+    if kji0 is None or len(kji0) == 0:
+        return shadow
     shadow[kji0[:, 0], kji0[:, 1], kji0[:, 2]] = 1
     shadow[kji0[:, 0] + 1, kji0[:, 1], kji0[:, 2]] += 2
     for _ in range(limit):
@@ -1934,6 +1937,10 @@ def _shallow_or_curtain(a: np.ndarray, true_count: int, raw: bool) -> bool:
     if abs(mean_k - opposite_mean_k) <= 0.001:
         # log.warning('unable to determine which side of surface is shallower')
         is_curtain = True
+        for k in range(1, a.shape[0]):
+            if np.any(a[k] != a[0]):
+                is_curtain = False
+                break
     return is_curtain
 
 
-- 
2.43.0


From 32ef194b8918e5ce3247996ec21fd0adee5ebeaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:39 +0000
Subject: [PATCH 101/142] fix: consolidation and reuse with both human and
 geologic time series present

---
 resqpy/olio/base.py          | 4 ++--
 resqpy/olio/consolidation.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/resqpy/olio/base.py b/resqpy/olio/base.py
index bc9c26a..5502b51 100644
--- a/resqpy/olio/base.py
+++ b/resqpy/olio/base.py
@@ -110,8 +110,8 @@ class BaseResqpy(metaclass = ABCMeta):
                 return True
             try:
                 other = self.__class__(self.model, uuid = other_uuid)
-            except Exception:
-                return False
+            except Exception:  # eg. a geologic time series when this is a human one
+                continue
             if self == other:
                 logger.debug(f'reusing equivalent resqml object with uuid {other_uuid}')
                 self.uuid = other_uuid  # NB: change of uuid for this object
diff --git a/resqpy/olio/consolidation.py b/resqpy/olio/consolidation.py
index 5bd82f9..eb65890 100644
--- a/resqpy/olio/consolidation.py
+++ b/resqpy/olio/consolidation.py
@@ -90,7 +90,7 @@ class Consolidation:
         elif obj_type.endswith('Crs'):
             immigrant_obj = rqc.Crs(immigrant_model, uuid = immigrant_uuid)
         elif obj_type == 'TimeSeries':
-            immigrant_obj = rqt.TimeSeries(immigrant_model, uuid = immigrant_uuid)
+            immigrant_obj = rqt.any_time_series(immigrant_model, uuid = immigrant_uuid)
         elif obj_type == 'StringTableLookup':
             immigrant_obj = rqp.StringLookup(immigrant_model, uuid = immigrant_uuid)
         elif obj_type == 'PropertyKind':
@@ -108,7 +108,7 @@ class Consolidation:
             elif obj_type.endswith('Crs'):
                 resident_obj = rqc.Crs(self.model, uuid = resident_uuid)
             elif obj_type == 'TimeSeries':
-                resident_obj = rqt.TimeSeries(self.model, uuid = resident_uuid)
+                resident_obj = rqt.any_time_series(self.model, uuid = resident_uuid)
             elif obj_type == 'StringTableLookup':
                 resident_obj = rqp.StringLookup(self.model, uuid = resident_uuid)
             elif obj_type == 'PropertyKind':
-- 
2.43.0


From b42beb760b2a2a739e1a4c4f6e3e56c32e80564a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:40 +0000
Subject: [PATCH 102/142] fix: face centre point of an unstructured grid with
 points not yet loaded

---
 resqpy/unstructured/_unstructured_grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/unstructured/_unstructured_grid.py b/resqpy/unstructured/_unstructured_grid.py
index 4611a63..915a7e4 100644
--- a/resqpy/unstructured/_unstructured_grid.py
+++ b/resqpy/unstructured/_unstructured_grid.py
@@ -440,7 +440,7 @@ class UnstructuredGrid(BaseResqpy):
            its barycentre
         """
 
-        return np.mean(self.points_cached[self.node_indices_for_face(face_index)], axis = 0)
+        return np.mean(self.points_ref()[self.node_indices_for_face(face_index)], axis = 0)
 
     def face_count_for_cell(self, cell):
         """Returns the number of faces for a particular cell."""
-- 
2.43.0


From 4676618c34cf55f0f4d7c9b1c93f6aa67c602224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:40 +0000
Subject: [PATCH 103/142] fix: composite bounding box no longer modifies first
 box passed

---
 resqpy/grid/_xyz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/grid/_xyz.py b/resqpy/grid/_xyz.py
index 88c1dba..c432efa 100644
--- a/resqpy/grid/_xyz.py
+++ b/resqpy/grid/_xyz.py
@@ -99,7 +99,7 @@ def bounding_box(grid, cell_kji0, points_root = None, cache_cp_array = False):
 def composite_bounding_box(grid, bounding_box_list):
     """Returns the xyz box which envelopes all the boxes in the list, as a numpy array of shape (2, 3)."""
 
-    result = bounding_box_list[0]
+    result = bounding_box_list[0].copy()
     for box in bounding_box_list[1:]:
         result[0] = np.minimum(result[0], box[0])
         result[1] = np.maximum(result[1], box[1])
-- 
2.43.0


From 788106012b57f134f0ec1d0429aee3d1722b201a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:40 +0000
Subject: [PATCH 104/142] fix: vertical prism cell centre for a single cell has
 documented shape

---
 resqpy/unstructured/_prism_grid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resqpy/unstructured/_prism_grid.py b/resqpy/unstructured/_prism_grid.py
index 8b87443..7d9a26b 100644
--- a/resqpy/unstructured/_prism_grid.py
+++ b/resqpy/unstructured/_prism_grid.py
@@ -428,7 +428,8 @@ class VerticalPrismGrid(PrismGrid):
         """
 
         cp = self.corner_points(cell = cell)
-        return np.mean(cp.reshape((-1, 6, 3)), axis = (1))
+        centres = np.mean(cp.reshape((-1, 6, 3)), axis = (1))
+        return centres if cell is None else centres[0]
 
     def corner_points(self, cell = None):
         """Returns corner points for all cells or for a single cell.
-- 
2.43.0


From 17a9f1bed0e7704b68deb08e184df47d389948b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:23 +0000
Subject: [PATCH 105/142] fix: deviation survey trajectories honour angle,
 length and depth units

---
 resqpy/well/_deviation_survey.py |  2 +-
 resqpy/well/_trajectory.py       | 68 +++++++++++++++++---------------
 resqpy/well/well_object_funcs.py |  4 +-
 3 files changed, 40 insertions(+), 34 deletions(-)

diff --git a/resqpy/well/_deviation_survey.py b/resqpy/well/_deviation_survey.py
index dfb162a..1dddd24 100644
--- a/resqpy/well/_deviation_survey.py
+++ b/resqpy/well/_deviation_survey.py
@@ -361,7 +361,7 @@ class DeviationSurvey(BaseResqpy):
             if self.md_datum is None:
                 if md_datum_xyz is None:
                     raise ValueError("Must provide a MD Datum for the DeviationSurvey")
-                self.md_datum = rqmdd.MdDatum(self.model, location = md_datum_xyz)
+                self.md_datum = rqmdd.MdDatum(self.model, crs_uuid = self.model.crs_uuid, location = md_datum_xyz)
             if self.md_datum.root is None:
                 md_datum_root = self.md_datum.create_xml()
             else:
diff --git a/resqpy/well/_trajectory.py b/resqpy/well/_trajectory.py
index 624b16e..ef68dbe 100644
--- a/resqpy/well/_trajectory.py
+++ b/resqpy/well/_trajectory.py
@@ -338,32 +338,39 @@ class Trajectory(BaseResqpy):
     def __calculate_trajectory_from_inclination_and_azimuth(self, survey):
         """Calculate well trajectory from inclination and azimuth data."""
 
+        to_radians = maths.radians if survey.angles_in_degrees else float
+        md_scaling = self.__md_to_xyz_scaling(survey)
+
         for sp in range(1, self.knot_count):
-            i1 = survey.inclinations[sp - 1]
-            i2 = survey.inclinations[sp]
-            az1 = survey.azimuths[sp - 1]
-            az2 = survey.azimuths[sp]
+            i1 = to_radians(survey.inclinations[sp - 1])
+            i2 = to_radians(survey.inclinations[sp])
+            az1 = to_radians(survey.azimuths[sp - 1])
+            az2 = to_radians(survey.azimuths[sp])
             delta_md = survey.measured_depths[sp] - survey.measured_depths[sp - 1]
             assert delta_md > 0.0
-            if i1 == i2 and az1 == az2:
-                delta_v = delta_md * vec.unit_vector_from_azimuth_and_inclination(az1, i1)
-            else:
-                i1 = maths.radians(i1)
-                i2 = maths.radians(i2)
-                az1 = maths.radians(az1)
-                az2 = maths.radians(az2)
-                sin_i1 = maths.sin(i1)
-                sin_i2 = maths.sin(i2)
-                cos_theta = min(max(maths.cos(i2 - i1) - sin_i1 * sin_i2 * (1.0 - maths.cos(az2 - az1)), -1.0), 1.0)
-                theta = maths.acos(cos_theta)
-                #           theta = maths.acos(sin_i1 * sin_i2 * maths.cos(az2 - az1)  +  (maths.cos(i1) * maths.cos(i2)))
-                assert theta != 0.0  # shouldn't happen as covered by if clause above
-                half_rf = maths.tan(0.5 * theta) / theta
-                delta_y = delta_md * half_rf * ((sin_i1 * maths.cos(az1)) + (sin_i2 * maths.cos(az2)))
-                delta_x = delta_md * half_rf * ((sin_i1 * maths.sin(az1)) + (sin_i2 * maths.sin(az2)))
-                delta_z = delta_md * half_rf * (maths.cos(i1) + maths.cos(i2))
-                delta_v = np.array((delta_x, delta_y, delta_z))
-            self.control_points[sp] = self.control_points[sp - 1] + delta_v
+            sin_i1 = maths.sin(i1)
+            sin_i2 = maths.sin(i2)
+            cos_theta = min(max(maths.cos(i2 - i1) - sin_i1 * sin_i2 * (1.0 - maths.cos(az2 - az1)), -1.0), 1.0)
+            theta = maths.acos(cos_theta)
+            #       theta = maths.acos(sin_i1 * sin_i2 * maths.cos(az2 - az1)  +  (maths.cos(i1) * maths.cos(i2)))
+            half_rf = maths.tan(0.5 * theta) / theta if theta > 0.0 else 0.5
+            delta_y = delta_md * half_rf * ((sin_i1 * maths.cos(az1)) + (sin_i2 * maths.cos(az2)))
+            delta_x = delta_md * half_rf * ((sin_i1 * maths.sin(az1)) + (sin_i2 * maths.sin(az2)))
+            delta_z = delta_md * half_rf * (maths.cos(i1) + maths.cos(i2))
+            self.control_points[sp] = self.control_points[sp - 1] + md_scaling * np.array((delta_x, delta_y, delta_z))
+
+    def __md_to_xyz_scaling(self, survey):
+        """Returns factors converting (x, y, depth) in survey md units to units and z direction of the crs."""
+
+        crs_uuid = self.crs_uuid
+        if crs_uuid is None:
+            crs_uuid = self.model.crs_uuid if survey.md_datum is None else survey.md_datum.crs_uuid
+        if crs_uuid is None:
+            return np.ones(3)
+        crs = rqc.Crs(self.model, uuid = crs_uuid)
+        xy_scaling = wam.convert_lengths(1.0, survey.md_uom, crs.xy_units)
+        z_scaling = wam.convert_lengths(1.0, survey.md_uom, crs.z_units)
+        return np.array((xy_scaling, xy_scaling, z_scaling if crs.z_inc_down else -z_scaling))
 
     def load_from_data_frame(
             self,
@@ -484,9 +491,9 @@ class Trajectory(BaseResqpy):
         assert len(df) > 0, 'no rows of perforation data found in wellspec for well ' + well_name
 
         cell_kji0_list = np.empty((len(df), 3), dtype = np.int32)
-        cell_kji0_list[:, 0] = df['L']
-        cell_kji0_list[:, 1] = df['JW']
-        cell_kji0_list[:, 2] = df['IW']
+        cell_kji0_list[:, 0] = df['L'] - 1  # wellspec cell indices are 1 based
+        cell_kji0_list[:, 1] = df['JW'] - 1
+        cell_kji0_list[:, 2] = df['IW'] - 1
 
         self.load_from_cell_list(grid, cell_kji0_list, spline_mode, md_uom)
 
@@ -692,11 +699,7 @@ class Trajectory(BaseResqpy):
             interval_vectors[:, 2] = -interval_vectors[:, 2]
         interval_h = np.sqrt((interval_vectors[:, 0] * interval_vectors[:, 0]) +
                              (interval_vectors[:, 1] * interval_vectors[:, 1]))
-        restore = np.seterr(all = 'ignore')
-        incl_radians = np.arctan(interval_h / interval_vectors[:, 2])  # horizontal / vertical
-        np.seterr(**restore)
-        incl_radians = np.where(interval_vectors[:, 2] == 0.0, maths.pi / 2.0, incl_radians)
-        incl_radians = np.where(incl_radians < 0.0, incl_radians + maths.pi, incl_radians)
+        incl_radians = np.arctan2(interval_h, interval_vectors[:, 2])  # horizontal, vertical
         return np.degrees(incl_radians)
 
     def splined_trajectory(self,
@@ -901,7 +904,8 @@ class Trajectory(BaseResqpy):
 
         if self.md_datum is None:
             assert md_datum_xyz is not None
-            self.md_datum = rqmdd.MdDatum(self.model, location = md_datum_xyz)
+            crs_uuid = self.model.crs_uuid if self.crs_uuid is None else self.crs_uuid
+            self.md_datum = rqmdd.MdDatum(self.model, crs_uuid = crs_uuid, location = md_datum_xyz)
         if self.md_datum.root is None:
             md_datum_root = self.md_datum.create_xml()
         else:
diff --git a/resqpy/well/well_object_funcs.py b/resqpy/well/well_object_funcs.py
index a954916..6136967 100644
--- a/resqpy/well/well_object_funcs.py
+++ b/resqpy/well/well_object_funcs.py
@@ -106,6 +106,8 @@ def add_wells_from_ascii_file(model,
     trajectory_list = []
     md_datum_list = []
 
+    column_names = {md_col: 'MD', x_col: 'X', y_col: 'Y', z_col: 'Z'}
+
     for well_name in unique_wells:
 
         log.debug('importing well: ' + str(well_name))
@@ -136,7 +138,7 @@ def add_wells_from_ascii_file(model,
         # create trajectory, write arrays to hdf5 and add as part
         trajectory = rqw.Trajectory(model,
                                     md_datum = md_datum,
-                                    data_frame = well_df,
+                                    data_frame = well_df[list(column_names)].rename(columns = column_names),
                                     length_uom = length_uom,
                                     md_domain = md_domain,
                                     represented_interp = interpretation,
-- 
2.43.0


From 96982905c734547c3c8abdfac6ddd58a63ff7fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:17 +0000
Subject: [PATCH 106/142] fix: skin of faulted grids with one row or column, k
 gaps or one fault direction

---
 resqpy/grid_surface/_grid_skin.py    | 44 ++++++++++++++++------------
 resqpy/grid_surface/_grid_surface.py |  7 +++++
 2 files changed, 32 insertions(+), 19 deletions(-)

diff --git a/resqpy/grid_surface/_grid_skin.py b/resqpy/grid_surface/_grid_skin.py
index 2f75d27..93a5fee 100644
--- a/resqpy/grid_surface/_grid_skin.py
+++ b/resqpy/grid_surface/_grid_skin.py
@@ -29,6 +29,7 @@ class GridSkin:
         self.skin = None  #: compostite surface constructed during initialisation
         self.fault_j_face_cols_ji0 = None  # split internal J faces
         self.fault_i_face_cols_ji0 = None  # split internal I faces
+        self.fault_surf_indices = []  # for each fault surface in skin: 0 to 3 for J-, J+, I-, I+ faces
         self.polygon = None  # not yet in use
         self.is_regular = is_regular  #: indicates a simplified skin for a regular aligned grid
 
@@ -102,32 +103,33 @@ class GridSkin:
 
             # fault face processing
             j_column_faces, i_column_faces = grid.split_column_faces()
-            col_j0, col_i0 = np.where(j_column_faces)
-            self.fault_j_face_cols_ji0 = np.stack((col_j0, col_i0),
-                                                  axis = -1)  # fault is on plus j face of these columns
-            col_j0, col_i0 = np.where(i_column_faces)
-            self.fault_i_face_cols_ji0 = np.stack((col_j0, col_i0),
-                                                  axis = -1)  # fault is on plus i face of these columns
+            # note: column face arrays are None where grid has only one column in that direction
+            self.fault_j_face_cols_ji0 = np.empty((0, 2), dtype = int)  # fault is on plus j face of these columns
+            if j_column_faces is not None:
+                self.fault_j_face_cols_ji0 = np.stack(np.where(j_column_faces), axis = -1)
+            self.fault_i_face_cols_ji0 = np.empty((0, 2), dtype = int)  # fault is on plus i face of these columns
+            if i_column_faces is not None:
+                self.fault_i_face_cols_ji0 = np.stack(np.where(i_column_faces), axis = -1)
 
             j_minus_fault_surf = j_plus_fault_surf = None
             j_minus_fault_surf_list = []
             j_plus_fault_surf_list = []
             for col_ji0 in self.fault_j_face_cols_ji0:
                 #            log.debug(f'fault j face col_ji0: {col_ji0}')
-                # note: use of single layer for internal fault surfaces results in some incorrect skin surface where k gaps are present
-                # find_first_intersection_of_trajectory() method takes care of this but other uses of skin might need to be aware
+                # note: single layer not used for internal fault surfaces where k gaps are present, as that would give some
+                # incorrect skin surface
                 _, surf = rqgs.create_column_face_mesh_and_surface(grid,
                                                                    col_ji0,
                                                                    1,
                                                                    1,
                                                                    quad_triangles = quad_triangles,
-                                                                   as_single_layer = True)
+                                                                   as_single_layer = (not self.k_gaps))
                 j_plus_fault_surf_list.append(surf)
                 _, surf = rqgs.create_column_face_mesh_and_surface(grid, (col_ji0[0] + 1, col_ji0[1]),
                                                                    1,
                                                                    0,
                                                                    quad_triangles = quad_triangles,
-                                                                   as_single_layer = True)
+                                                                   as_single_layer = (not self.k_gaps))
                 j_minus_fault_surf_list.append(surf)
             if len(j_minus_fault_surf_list) > 0:
                 j_minus_fault_surf = rqs.CombinedSurface(j_minus_fault_surf_list, grid.crs_uuid)
@@ -144,13 +146,13 @@ class GridSkin:
                                                                    2,
                                                                    1,
                                                                    quad_triangles = quad_triangles,
-                                                                   as_single_layer = True)
+                                                                   as_single_layer = (not self.k_gaps))
                 i_plus_fault_surf_list.append(surf)
                 _, surf = rqgs.create_column_face_mesh_and_surface(grid, (col_ji0[0], col_ji0[1] + 1),
                                                                    2,
                                                                    0,
                                                                    quad_triangles = quad_triangles,
-                                                                   as_single_layer = True)
+                                                                   as_single_layer = (not self.k_gaps))
                 i_minus_fault_surf_list.append(surf)
             if len(i_minus_fault_surf_list) > 0:
                 i_minus_fault_surf = rqs.CombinedSurface(i_minus_fault_surf_list, grid.crs_uuid)
@@ -160,9 +162,11 @@ class GridSkin:
             surf_list = [top_surf, base_surf, j_minus_surf, j_plus_surf, i_minus_surf, i_plus_surf]
             for k_gap_surf in k_gap_surf_list:
                 surf_list.append(k_gap_surf)
-            for fault_surf in [j_minus_fault_surf, j_plus_fault_surf, i_minus_fault_surf, i_plus_fault_surf]:
+            fault_surf_list = [j_minus_fault_surf, j_plus_fault_surf, i_minus_fault_surf, i_plus_fault_surf]
+            for fault_index, fault_surf in enumerate(fault_surf_list):
                 if fault_surf is not None:
                     surf_list.append(fault_surf)
+                    self.fault_surf_indices.append(fault_index)
 
         else:
 
@@ -222,7 +226,8 @@ class GridSkin:
               this point
            nudge (float, optional): if present and positive, the start point is nudged forward by this distance (grid uom);
               if present and negative (more typical for skin entry search), the start point is nudged back a little
-           exclude_kji0 (triple int, optional): if present, the indices of a cell to exclude as a possible result
+           exclude_kji0 (triple int, optional): if present, the indices of a cell to exclude as a possible result; note
+              that the search continues beyond the intersections so excluded, and could find a later re-entry to the cell
 
         returns:
            5-tuple of:
@@ -324,17 +329,17 @@ class GridSkin:
                     polarity = 0
 
             else:  # fault face
-                axis, polarity = divmod(surf_index - (6 + 2 * self.k_gaps), 2)
+                fault_index = self.fault_surf_indices[surf_index - (6 + 2 * self.k_gaps)]
+                axis, polarity = divmod(fault_index, 2)
                 axis += 1
                 log.debug('penetration through fault face ' + 'KJI'[axis] + '-+'[polarity])
                 assert self.skin.is_combined_list[surf_index]
                 fault_surf_list = self.skin.surface_list[surf_index]
                 col_surf_index, _ = fault_surf_list.surface_index_for_triangle_index(surf_tri_index)
                 col_ji0 = np.empty((2,), dtype = int)
-                surf_index -= 6 + 2 * self.k_gaps
-                if surf_index in [0, 1]:  # J-/+ fault face
+                if fault_index in [0, 1]:  # J-/+ fault face
                     col_ji0[:] = self.fault_j_face_cols_ji0[col_surf_index]
-                elif surf_index in [2, 3]:  # I-/+ fault face
+                elif fault_index in [2, 3]:  # I-/+ fault face
                     col_ji0[:] = self.fault_i_face_cols_ji0[col_surf_index]
                 else:  # should not be possible
                     raise Exception('code failure')
@@ -367,7 +372,8 @@ class GridSkin:
             if exclude_kji0 is None or not np.all(kji0 == exclude_kji0):
                 return xyz, kji0, axis, polarity, segment
 
-        return None, None, None, None, None
+        # all intersections found so far are with the excluded cell, so continue search beyond the last of them
+        return self.find_first_intersection_of_trajectory(trajectory, start = segment, start_xyz = try_xyz, nudge = 0.1)
 
     def _make_k_gap_surfaces(self, quad_triangles = True):
         """Returns a list of newly created surfaces representing top and base of each k gap."""
diff --git a/resqpy/grid_surface/_grid_surface.py b/resqpy/grid_surface/_grid_surface.py
index da76e89..17960cb 100644
--- a/resqpy/grid_surface/_grid_surface.py
+++ b/resqpy/grid_surface/_grid_surface.py
@@ -186,6 +186,13 @@ def generate_untorn_surface_for_x_section(grid,
 
     assert axis.upper() in ['I', 'J']
 
+    if grid.k_gaps:  # layers either side of a gap do not share points, so surface is torn even though not faulted
+        return generate_torn_surface_for_x_section(grid,
+                                                   axis,
+                                                   ref_slice0 = ref_slice0,
+                                                   plus_face = plus_face,
+                                                   quad_triangles = quad_triangles)
+
     x_sect_points = grid.unsplit_x_section_points(axis, ref_slice0 = ref_slice0, plus_face = plus_face)
     if as_single_layer:
         shape = np.array(x_sect_points.shape)
-- 
2.43.0


From 188bf27c15187d55380881f28447711d2d7ee178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:17 +0000
Subject: [PATCH 107/142] fix: trajectory intersection with bent faces and
 after a fault

---
 resqpy/grid_surface/_trajectory_intersects.py | 22 ++++++++++++-------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/resqpy/grid_surface/_trajectory_intersects.py b/resqpy/grid_surface/_trajectory_intersects.py
index c08b9c7..256b7c8 100644
--- a/resqpy/grid_surface/_trajectory_intersects.py
+++ b/resqpy/grid_surface/_trajectory_intersects.py
@@ -177,9 +177,9 @@ def find_first_intersection_of_trajectory_with_surface(trajectory,
     if nudge is not None and nudge != 0.0:
         remaining = trajectory.control_points[knot + 1] - start_xyz
         if vec.naive_length(remaining) <= nudge:
-            start_xyz += 0.9 * remaining
+            start_xyz = start_xyz + 0.9 * remaining
         else:
-            start_xyz += nudge * vec.unit_vector(remaining)
+            start_xyz = start_xyz + nudge * vec.unit_vector(remaining)
     while knot < trajectory.knot_count - 1:
         if start_xyz is None:
             line_p = trajectory.control_points[knot]
@@ -329,9 +329,9 @@ def find_first_intersection_of_trajectory_with_cell_surface(trajectory,
             if nudge is not None and nudge != 0.0:
                 remaining = trajectory.control_points[knot + 1] - start_xyz
                 if vec.naive_length(remaining) <= nudge:
-                    start_xyz += 0.9 * remaining
+                    start_xyz = start_xyz + 0.9 * remaining
                 else:
-                    start_xyz += nudge * vec.unit_vector(remaining)
+                    start_xyz = start_xyz + nudge * vec.unit_vector(remaining)
             line_p = start_xyz
         else:
             line_p = trajectory.control_points[knot]
@@ -339,8 +339,8 @@ def find_first_intersection_of_trajectory_with_cell_surface(trajectory,
         #      log.debug('kji0: ' + str(kji0) + '; knot: ' + str(knot) + '; line p: ' + str(line_p) + '; v: ' + str(line_v))
         intersects = meet.line_triangles_intersects(line_p, line_v, triangles, line_segment = True)
         if not np.all(np.isnan(intersects)):
-            # if more than one intersect, could find one closest to line_p; should not be needed when starting inside cell
-            tri = meet.intersects_indices(intersects)[0]
+            # if more than one intersect, eg. due to a face not being planar, find the one closest to line_p
+            tri = __closest_intersect(line_p, intersects)
             xyz = intersects[tri]
             _, axis, polarity = cell_surface.cell_axis_and_polarity_from_triangle_index(tri)
             # log.debug('intersection xyz: ' + str(xyz) + '; tri: ' + str(tri) + '; axis: ' + str(axis) + '; polarity: ' +
@@ -383,7 +383,7 @@ def find_intersection_of_trajectory_interval_with_column_face(trajectory,
     log.debug(f"intersecting trajectory segment with column face ji0 {col_ji0} face {'KJI'[axis]}{'-+'[polarity]}")
     if start_xyz is not None:
         if nudge is not None and nudge != 0.0:  # here we typically nudge back up the wellbore
-            start_xyz += nudge * vec.unit_vector(trajectory.control_points[start_knot + 1] - start_xyz)
+            start_xyz = start_xyz + nudge * vec.unit_vector(trajectory.control_points[start_knot + 1] - start_xyz)
         line_p = start_xyz
     else:
         line_p = trajectory.control_points[start_knot]
@@ -391,7 +391,7 @@ def find_intersection_of_trajectory_interval_with_column_face(trajectory,
     intersects = meet.line_triangles_intersects(line_p, line_v, triangles, line_segment = True)
     if np.all(np.isnan(intersects)):
         return None, None
-    tri = meet.intersects_indices(intersects)[0]  # todo: if more than one, find one closest to line_p
+    tri = __closest_intersect(line_p, intersects)
     xyz = intersects[tri]
     _, k0 = col_face_surface.column_from_triangle_index(tri)  # 'column' in method name here maps to layers!
     return xyz, k0
@@ -418,3 +418,9 @@ def trajectory_grid_overlap(trajectory, grid, lazy = False):
         traj_box[1] = np.max(t_box, axis = 0)
     log.debug(f'overlap check: traj: {traj_box}; grid{grid_box}; overlap: {bx.boxes_overlap(traj_box, grid_box)}')
     return bx.boxes_overlap(traj_box, grid_box)
+
+
+def __closest_intersect(line_p, intersects):
+    # returns the index of the triangle whose intersection point is closest to line_p
+    indices = meet.intersects_indices(intersects)
+    return indices[np.argmin(vec.naive_lengths(intersects[indices] - line_p))]
-- 
2.43.0


From a3b863eec7ea0be16de83cdc06a6524ef551a4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:18 +0000
Subject: [PATCH 108/142] fix: blocked well population honours active_only, k
 gaps and faults

---
 resqpy/grid_surface/_blocked_well_populate.py | 61 ++++++++++++-------
 1 file changed, 40 insertions(+), 21 deletions(-)

diff --git a/resqpy/grid_surface/_blocked_well_populate.py b/resqpy/grid_surface/_blocked_well_populate.py
index a1c117c..a439630 100644
--- a/resqpy/grid_surface/_blocked_well_populate.py
+++ b/resqpy/grid_surface/_blocked_well_populate.py
@@ -139,18 +139,21 @@ def populate_blocked_well_from_trajectory(blocked_well,
     previous_kji0[axis] += polarity * 2 - 1  # note: previous may legitimately be 'beyond' edge of grid
     entry_fraction = __segment_fraction(traj_xyz, entry_knot, xyz)
     log.debug(f'initial previous kji0: {previous_kji0}')
-    next_cell_info = __find_next_cell(grid,
-                                      previous_kji0,
-                                      axis,
-                                      1 - polarity,
-                                      trajectory,
-                                      entry_knot,
-                                      entry_fraction,
-                                      xyz,
-                                      check_for_reentry,
-                                      treat_skin_as_fault = use_single_layer_tactics,
-                                      lazy = lazy,
-                                      use_single_layer_tactics = use_single_layer_tactics)
+    if grid.k_gaps and axis == 0 and 0 <= previous_kji0[0] < grid.nk:  # first entry to grid is out of a k gap
+        next_cell_info = (True, cell_kji0, axis, polarity, entry_knot, entry_fraction, xyz)
+    else:
+        next_cell_info = __find_next_cell(grid,
+                                          previous_kji0,
+                                          axis,
+                                          1 - polarity,
+                                          trajectory,
+                                          entry_knot,
+                                          entry_fraction,
+                                          xyz,
+                                          check_for_reentry,
+                                          treat_skin_as_fault = use_single_layer_tactics,
+                                          lazy = lazy,
+                                          use_single_layer_tactics = use_single_layer_tactics)
     log.debug(f'initial next cell info: {next_cell_info}')
     node_mds_list = [__back_calculated_md(trajectory, entry_knot, entry_fraction)]
     node_count = 1
@@ -186,9 +189,8 @@ def populate_blocked_well_from_trajectory(blocked_well,
 
         if exit_xyz is None:
             if rqgs.point_is_within_cell(traj_xyz[-1], grid, kji0):
-                # well terminates within cell: add termination blocked interval (or unblocked if inactive cell)
+                # well terminates within cell: add termination blocked interval
                 log.debug(f'adding termination interval for cell {kji0}')
-                # todo: check for inactive cell and make an unblocked interval instead, if required
                 node_mds_list.append(trajectory.measured_depths[-1])
                 node_count += 1
                 grid_indices_list.append(0)
@@ -206,7 +208,6 @@ def populate_blocked_well_from_trajectory(blocked_well,
         else:
             exit_fraction = __segment_fraction(traj_xyz, exit_knot, exit_xyz)
             log.debug(f'adding blocked interval for cell kji0: {kji0}')
-            # todo: check for inactive cell and make an unblocked interval instead, if required
             node_mds_list.append(__back_calculated_md(trajectory, exit_knot, exit_fraction))
             node_count += 1
             grid_indices_list.append(0)
@@ -242,11 +243,20 @@ def populate_blocked_well_from_trajectory(blocked_well,
     assert len(cell_indices_list) == cell_count
     assert len(face_pairs_list) == cell_count
 
+    if active_only and grid.inactive is not None:  # convert intervals covering inactive cells into unblocked intervals
+        active = np.logical_not(grid.inactive.flatten()[np.array(cell_indices_list, dtype = int)])
+        grid_indices_array = np.array(grid_indices_list, dtype = int)
+        grid_indices_array[grid_indices_array >= 0] = np.where(active, 0, -1)
+        grid_indices_list = list(grid_indices_array)
+        cell_indices_list = [ci for (ci, a) in zip(cell_indices_list, active) if a]
+        face_pairs_list = [fp for (fp, a) in zip(face_pairs_list, active) if a]
+        cell_count = len(cell_indices_list)
+
     blocked_well.node_mds = np.array(node_mds_list, dtype = float)
     blocked_well.node_count = node_count
     blocked_well.grid_indices = np.array(grid_indices_list, dtype = np.int32)
     blocked_well.cell_indices = np.array(cell_indices_list, dtype = np.int64)
-    blocked_well.face_pair_indices = np.array(face_pairs_list, dtype = np.int8)
+    blocked_well.face_pair_indices = np.array(face_pairs_list, dtype = np.int8).reshape((-1, 2, 2))
     blocked_well.cell_count = cell_count
     blocked_well.grid_list = [grid]
 
@@ -416,15 +426,21 @@ def __faulted(trajectory, grid, segment, kji0, axis, polarity, xyz, lazy, use_si
                                                                                             start = segment,
                                                                                             start_xyz = xyz,
                                                                                             nudge = -0.1)
+    x_sect_info = None
     if xyz_f is not None:
         # back out cell info from triangle index; note 'column_from...' is actually x_section cell face
         k0, j_or_i0 = x_sect_surf.column_from_triangle_index(tri_index_f)
         kji0[0] = k0
         kji0[3 - axis] = j_or_i0
         seg_fraction = __segment_fraction(trajectory.control_points, segment_f, xyz_f)
-        return vec.isclose(xyz, xyz_f, tolerance = 0.001), kji0, axis, 1 - polarity, segment_f, seg_fraction, xyz_f
-    log.debug("failed to find entry point in cross section after crossing fault"
-              f"{'' if lazy else '; checking for skin re-entry'}")
+        shared = vec.isclose(xyz, xyz_f, tolerance = 0.001)
+        x_sect_info = (shared, kji0, axis, 1 - polarity, segment_f, seg_fraction, xyz_f)
+        if shared or lazy:
+            return x_sect_info
+        log.debug('checking for skin re-entry prior to returning to cross section')
+    else:
+        log.debug("failed to find entry point in cross section after crossing fault"
+                  f"{'' if lazy else '; checking for skin re-entry'}")
     if lazy:
         return None
     skin = grid.skin(use_single_layer_tactics = use_single_layer_tactics)
@@ -435,10 +451,13 @@ def __faulted(trajectory, grid, segment, kji0, axis, polarity, xyz, lazy, use_si
                                                                                            nudge = -0.1,
                                                                                            exclude_kji0 = previous_kji0)
     if xyz_r is None:
-        log.warning('no skin re-entry found after exit through fault face')
-        return None
+        if x_sect_info is None:
+            log.warning('no skin re-entry found after exit through fault face')
+        return x_sect_info
     log.debug(f"skin re-entry after fault face exit: kji0: {cell_kji0}; face: {'KJI'[axis]}{'-+'[polarity]}")
     seg_fraction = __segment_fraction(trajectory.control_points, segment, xyz_r)
+    if x_sect_info is not None and x_sect_info[4:6] <= (segment, seg_fraction + 1.0e-6):
+        return x_sect_info
     return False, cell_kji0, axis, polarity, segment, seg_fraction, xyz_r
 
 
-- 
2.43.0


From 75a615d8140cd3a379d723e109e2bc9b7aebfd7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:14 +0000
Subject: [PATCH 109/142] fix: wellspec dates before first TIME and tables
 followed by units keywords

---
 resqpy/olio/wellspec_keywords.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/resqpy/olio/wellspec_keywords.py b/resqpy/olio/wellspec_keywords.py
index 46918e1..7fccf8e 100644
--- a/resqpy/olio/wellspec_keywords.py
+++ b/resqpy/olio/wellspec_keywords.py
@@ -400,11 +400,12 @@ def get_well_pointers(
             date = date_obj.isoformat()
             time_pointers[file.tell()] = date
 
-    current_date = None  # Before first TIME
+    initial_date = None  # Before first TIME
     if no_date_replacement is not None:
-        current_date = no_date_replacement.isoformat()
+        initial_date = no_date_replacement.isoformat()
     for well, well_pointer_list in well_pointers.items():
         for i, well_pointer in enumerate(well_pointer_list):
+            current_date = initial_date
             for time_pointer, date in time_pointers.items():
                 if well_pointer[0] > time_pointer:
                     current_date = date
@@ -415,6 +416,12 @@ def get_well_pointers(
     return well_pointers
 
 
+# keywords which, at the start of a line, indicate the end of a table of wellspec data
+end_of_table_keywords = [
+    "WELLSPEC", "WELLMOD", "TIME", "INCLUDE", "METRIC", "ENGLISH", "METKG/CM2", "METBAR", "LAB"
+]
+
+
 def get_well_data(
     file: TextIO,
     well_name: str,
@@ -468,8 +475,7 @@ def get_well_data(
     all_null = True
     while True:
         kf.skip_comments(file)
-        if (kf.specific_keyword_next(file, "WELLSPEC") or kf.specific_keyword_next(file, "WELLMOD") or
-                kf.specific_keyword_next(file, "TIME") or kf.specific_keyword_next(file, "INCLUDE")):
+        if any(kf.specific_keyword_next(file, kw) for kw in end_of_table_keywords):
             break
         line = kf.strip_trailing_comment(file.readline())
         words = line.split()
-- 
2.43.0


From a78a16a1ae96e0295afbf6f6e149237a5f6dbaeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:14 +0000
Subject: [PATCH 110/142] fix: blocked well dataframe units, directions and
 defaults, and wellspec import details

---
 resqpy/well/_blocked_well.py | 90 ++++++++++++++++++++----------------
 1 file changed, 51 insertions(+), 39 deletions(-)

diff --git a/resqpy/well/_blocked_well.py b/resqpy/well/_blocked_well.py
index 0c672f7..33f7ee6 100644
--- a/resqpy/well/_blocked_well.py
+++ b/resqpy/well/_blocked_well.py
@@ -707,7 +707,8 @@ class BlockedWell(BaseResqpy):
             return None
 
         # for each (remaining) date in dates_list, if present in well df, creete subset df, compare row count with init, add props
-        length_uom = grid.z_units()
+        if not length_uom:
+            length_uom = grid.z_units()
         for date_index in range(next_date_index, len(dates_list)):
             date_df = df[df['DATE'] == dates_list[date_index]]
             if len(date_df) == 0:
@@ -751,7 +752,9 @@ class BlockedWell(BaseResqpy):
                               grid_name_to_check = None,
                               use_face_centres = True,
                               add_as_properties = False,
-                              length_uom = None):
+                              length_uom = None,
+                              time_index = None,
+                              time_series_uuid = None):
         """Populate empty blocked well from WELLSPEC-like dataframe; first columns must be IW, JW, L (i, j, k).
 
         note:
@@ -823,7 +826,8 @@ class BlockedWell(BaseResqpy):
                     blocked_cells_kji0 = blocked_cells_kji0,
                     use_face_centres = use_face_centres,
                     xy_units = grid.crs.xy_units,
-                    z_units = grid.crs.z_units)
+                    z_units = grid.crs.z_units,
+                    z_inc_down = grid.crs.z_inc_down)
             log.debug(
                 f'cell: {cell_kji0}; entry axis: {entry_axis}; polarity {entry_polarity}; exit axis: {exit_axis}; polarity {exit_polarity}'
             )
@@ -870,7 +874,11 @@ class BlockedWell(BaseResqpy):
             trajectory_mds = trajectory_mds)
 
         self.create_md_datum_and_trajectory(grid, trajectory_mds, trajectory_points, length_uom, well_name)
-        self.__add_as_properties_if_specified(add_as_properties = add_as_properties, df = df, length_uom = length_uom)
+        self.__add_as_properties_if_specified(add_as_properties = add_as_properties,
+                                              df = df,
+                                              length_uom = length_uom,
+                                              time_index = time_index,
+                                              time_series_uuid = time_series_uuid)
 
         return self
 
@@ -893,20 +901,22 @@ class BlockedWell(BaseResqpy):
             if skipped_warning_grid != other_grid:
                 log.warning('skipping perforation(s) in grid ' + other_grid + ' for well ' + str(well_name))
                 skipped_warning_grid = other_grid
-                skip_row = True
+            skip_row = True
         return skipped_warning_grid, skip_row
 
     @staticmethod
     def __calculate_entry_and_exit_axes_polarities_and_points(angles_present, row, cp, well_name, df, i, cell_kji0,
-                                                              blocked_cells_kji0, use_face_centres, xy_units, z_units):
+                                                              blocked_cells_kji0, use_face_centres, xy_units, z_units,
+                                                              z_inc_down = True):
         if angles_present:
             entry_axis, entry_polarity, entry_xyz, exit_axis, exit_polarity, exit_xyz =  \
             BlockedWell.__calculate_entry_and_exit_axes_polarities_and_points_using_angles(
-                row = row, cp = cp, well_name = well_name, xy_units = xy_units, z_units = z_units)
+                row = row, cp = cp, well_name = well_name, xy_units = xy_units, z_units = z_units, z_inc_down = z_inc_down)
         else:
             # fabricate entry and exit axes and polarities based on indices alone
             # note: could use geometry but here a cheap rough-and-ready approach is used
             log.debug('row ' + str(i) + ': using cell moves')
+            entry_xyz = exit_xyz = None  # face centres will be used
             entry_axis, entry_polarity, exit_axis, exit_polarity = BlockedWell.__calculate_entry_and_exit_axes_polarities_and_points_using_indices(
                 df = df, i = i, cell_kji0 = cell_kji0, blocked_cells_kji0 = blocked_cells_kji0)
 
@@ -916,12 +926,15 @@ class BlockedWell(BaseResqpy):
             exit_axis = exit_axis,
             entry_polarity = entry_polarity,
             exit_polarity = exit_polarity,
+            entry_xyz = entry_xyz,
+            exit_xyz = exit_xyz,
             cp = cp)
 
         return entry_axis, entry_polarity, entry_xyz, exit_axis, exit_polarity, exit_xyz
 
     @staticmethod
-    def __calculate_entry_and_exit_axes_polarities_and_points_using_angles(row, cp, well_name, xy_units, z_units):
+    def __calculate_entry_and_exit_axes_polarities_and_points_using_angles(row, cp, well_name, xy_units, z_units,
+                                                                           z_inc_down = True):
         """Calculate entry and exit axes, polarities and points using azimuth and inclination angles."""
 
         angla = row['ANGLA']
@@ -932,6 +945,8 @@ class BlockedWell(BaseResqpy):
             i_vector = np.sum(cp[:, :, 1] - cp[:, :, 0], axis = (0, 1))
             azimuth = vec.azimuth(i_vector) - angla  # see Nexus keyword reference doc
         well_vector = vec.unit_vector_from_azimuth_and_inclination(azimuth, inclination) * 10000.0
+        if not z_inc_down:
+            well_vector[2] = -well_vector[2]
         if xy_units != z_units:
             well_vector[2] = wam.convert_lengths(well_vector[2], xy_units, z_units)
             well_vector = vec.unit_vector(well_vector) * 10000.0
@@ -943,21 +958,21 @@ class BlockedWell(BaseResqpy):
     def __calculate_entry_and_exit_axes_polarities_and_points_using_indices(df, i, cell_kji0, blocked_cells_kji0):
 
         entry_axis, entry_polarity = BlockedWell.__fabricate_entry_axis_and_polarity_using_indices(
-            i, cell_kji0, blocked_cells_kji0)
+            cell_kji0, blocked_cells_kji0)
         exit_axis, exit_polarity = BlockedWell.__fabricate_exit_axis_and_polarity_using_indices(
             i, cell_kji0, entry_axis, entry_polarity, df)
 
         return entry_axis, entry_polarity, exit_axis, exit_polarity
 
     @staticmethod
-    def __fabricate_entry_axis_and_polarity_using_indices(i, cell_kji0, blocked_cells_kji0):
+    def __fabricate_entry_axis_and_polarity_using_indices(cell_kji0, blocked_cells_kji0):
         """Fabricate entry and exit axes and polarities based on indices alone.
 
         note:
             could use geometry but here a cheap rough-and-ready approach is used
         """
 
-        if i == 0:
+        if len(blocked_cells_kji0) == 0:
             entry_axis, entry_polarity = 0, 0  # K-
         else:
             entry_move = cell_kji0 - blocked_cells_kji0[-1]
@@ -997,7 +1012,8 @@ class BlockedWell(BaseResqpy):
 
     @staticmethod
     def __override_vector_based_xyz_entry_and_exit_points_if_necessary(use_face_centres, entry_axis, exit_axis,
-                                                                       entry_polarity, exit_polarity, cp):
+                                                                       entry_polarity, exit_polarity, entry_xyz,
+                                                                       exit_xyz, cp):
         """Override the vector based xyz entry and exit with face centres."""
 
         if use_face_centres:  # override the vector based xyz entry and exit points with face centres
@@ -1013,7 +1029,8 @@ class BlockedWell(BaseResqpy):
                 exit_xyz = np.mean(cp[:, exit_polarity, :], axis = (0, 1))
             else:
                 exit_xyz = np.mean(cp[:, :, exit_polarity], axis = (0, 1))  # exit_axis == 2, ie. I
-            return entry_xyz, exit_xyz
+
+        return entry_xyz, exit_xyz
 
     @staticmethod
     def __add_interval(previous_xyz, entry_axis, entry_polarity, entry_xyz, exit_axis, exit_polarity, exit_xyz,
@@ -1166,7 +1183,7 @@ class BlockedWell(BaseResqpy):
                         if include_overburden_unblocked_interval:
                             log.debug('adding mean sea level trajectory start')
                             previous_xyz[2] = 0.0  # use depth zero as md datum
-                        trajectory_mds.append(previous_xyz[2])
+                        trajectory_mds.append(previous_xyz[2] if grid_z_inc_down else -previous_xyz[2])
                         trajectory_points.append(previous_xyz)
 
                     if not vec.isclose(previous_xyz, entry_xyz, tolerance = 0.05):  # add an unblocked interval
@@ -1663,9 +1680,10 @@ class BlockedWell(BaseResqpy):
             if skin_i is None:
                 skin_i = 0.0
             if radw_i is None:
-                radw_i = (0.33 if length_uom == 'ft' else 0.1)
+                radw_uom = grid.crs.xy_units if length_uom is None else length_uom
+                radw_i = (0.33 if radw_uom.startswith('ft') else 0.1)
             if stat_i is None:
-                stat_i = stat
+                stat_i = 'ON' if stat is None else stat
 
             radb, wi, wbc =  \
                 BlockedWell.__get_well_inflow_parameters_for_interval(do_well_inflow = do_well_inflow,
@@ -1849,7 +1867,7 @@ class BlockedWell(BaseResqpy):
             prop_uuid = uuid_or_dict[grid.uuid]
         else:
             prop_uuid = uuid_or_dict  # uuid either in form of string or uuid.UUID
-        return grid.property_collection.single_array_ref(uuid = prop_uuid)
+        return grid.extract_property_collection().single_array_ref(uuid = prop_uuid)
 
     @staticmethod
     def __get_ref_vector(grid, grid_crs, cell_kji0, mode):
@@ -2029,8 +2047,9 @@ class BlockedWell(BaseResqpy):
 
         isotropic_perm = None
         if doing_kh or do_well_inflow:
-            if perm_j_uuid is None and perm_k_uuid is None:
-                isotropic_perm = True
+            isotropic_perm = (perm_j_uuid is None and perm_k_uuid is None)
+            if isotropic_perm:
+                perm_j_uuid = perm_k_uuid = perm_i_uuid
             else:
                 if perm_j_uuid is None:
                     perm_j_uuid = perm_i_uuid
@@ -2063,8 +2082,7 @@ class BlockedWell(BaseResqpy):
                             ('ANGLV' in column_list and 'ANGLV' not in pc_titles), (doing_kh), (do_well_inflow)])
         doing_xyz = any([('X' in column_list and 'X' not in pc_titles), ('Y' in column_list and 'Y' not in pc_titles),
                          ('DEPTH' in column_list and 'DEPTH' not in pc_titles)])
-        doing_entry_exit = any([(doing_angles),
-                                ('LENGTH' in column_list and 'LENGTH' not in pc_titles and length_mode == 'straight')])
+        doing_entry_exit = doing_angles or length_mode == 'straight'
 
         # doing_angles = (('ANGLA' in column_list and 'ANGLA' not in pc_titles) or
         #                 ('ANGLV' in column_list and 'ANGLV' not in pc_titles) or doing_kh or do_well_inflow)
@@ -2323,13 +2341,8 @@ class BlockedWell(BaseResqpy):
 
         entry_xyz, exit_xyz = BlockedWell._single_uom_entry_exit_xyz(entry_xyz, exit_xyz, ee_crs)
         vector = vec.unit_vector(np.array(exit_xyz) - np.array(entry_xyz))  # nominal wellbore vector for interval
-        if traj_z_inc_down is not None and traj_z_inc_down != grid_crs.z_inc_down:
+        if ee_crs.z_inc_down != grid_crs.z_inc_down:
             vector[2] = -vector[2]
-        if grid.crs.xy_units == grid.crs.z_units:
-            unit_adjusted_vector = vector
-        else:
-            unit_adjusted_vector = vector.copy()
-            unit_adjusted_vector[2] = wam.convert_lengths(unit_adjusted_vector[2], grid.crs.z_units, grid.crs.xy_units)
         v_ref_vector = BlockedWell.__get_ref_vector(grid, grid_crs, cell_kji0, anglv_ref)
         # log.debug('v ref vector: ' + str(v_ref_vector))
         if angla_plane_ref == anglv_ref:
@@ -2342,7 +2355,7 @@ class BlockedWell(BaseResqpy):
             cosine_anglv = maths.cos(anglv_rad)
             sine_anglv = maths.sin(anglv_rad)
         else:
-            cosine_anglv = min(max(vec.dot_product(unit_adjusted_vector, v_ref_vector), -1.0), 1.0)
+            cosine_anglv = min(max(vec.dot_product(vector, v_ref_vector), -1.0), 1.0)
             anglv_rad = maths.acos(cosine_anglv)
             sine_anglv = maths.sin(anglv_rad)
             anglv = vec.degrees_from_radians(anglv_rad)
@@ -2604,17 +2617,15 @@ class BlockedWell(BaseResqpy):
                                entry_xyz, ee_crs):
 
         if length_mode == 'MD' and self.trajectory is not None:
-            xyz = self.trajectory.xyz_for_md(md)
-            if length_uom is not None and length_uom != self.trajectory.md_uom:
-                wam.convert_lengths(xyz, traj_crs.z_units, length_uom)
-            if depth_inc_down and traj_z_inc_down is False:
-                xyz[2] = -xyz[2]
+            xyz = np.array(self.trajectory.xyz_for_md(md), dtype = float)
+            xyz_crs = traj_crs
         else:
             xyz = 0.5 * (np.array(exit_xyz) + np.array(entry_xyz))
-            if length_uom is not None and length_uom != ee_crs.z_units:
-                xyz[2] = wam.convert_lengths(xyz[2], ee_crs.z_units, length_uom)
-            if depth_inc_down != ee_crs.z_inc_down:
-                xyz[2] = -xyz[2]
+            xyz_crs = ee_crs
+        if length_uom is not None:
+            xyz = BlockedWell._single_uom_xyz(xyz, xyz_crs, length_uom)
+        if depth_inc_down and not xyz_crs.z_inc_down:
+            xyz[2] = -xyz[2]
 
         return xyz
 
@@ -3087,7 +3098,8 @@ class BlockedWell(BaseResqpy):
 
         if write_nexus_units:
             length_uom_system_list = ['METRIC', 'ENGLISH']
-            length_uom_index = ['m', 'ft'].index(length_uom)
+            uom = self.trajectory.md_uom if length_uom is None else length_uom
+            length_uom_index = ['m', 'ft'].index(uom)
             fp.write(f'{length_uom_system_list[length_uom_index]}\n\n')
 
         if length_uom_comment and self.trajectory is not None and ('LENGTH' in extra_columns_list or 'MD'
@@ -3141,7 +3153,7 @@ class BlockedWell(BaseResqpy):
 
         cells, grids = self.cell_indices_and_grid_list()
         if cells is None or grids is None or len(grids) == 0:
-            return None, None, None, None
+            return None, None
         return cells[0], grids[0].uuid
 
     def xyz_marker(self, active_only = True):
-- 
2.43.0


From 33e2b1d395ba0ae494f43b5da8e86c1cc3b73c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:47 +0000
Subject: [PATCH 111/142] fix: first intersection with layer of regular grid
 gives the right column

---
 resqpy/grid_surface/_trajectory_intersects.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/resqpy/grid_surface/_trajectory_intersects.py b/resqpy/grid_surface/_trajectory_intersects.py
index 256b7c8..1acc992 100644
--- a/resqpy/grid_surface/_trajectory_intersects.py
+++ b/resqpy/grid_surface/_trajectory_intersects.py
@@ -287,11 +287,16 @@ def find_first_intersection_of_trajectory_with_layer_interface(trajectory,
     col_list = []
     for traj in trajectory_list:
         xyz, knot, tri = find_first_intersection_of_trajectory_with_surface(traj, surface, start = start)
-        if is_regular:
-            col_j = int(xyz[1] / grid.block_dxyz_dkji[1, 1])
-            col_i = int(xyz[1] / grid.block_dxyz_dkji[2, 0])
-            assert 0 <= col_i < grid.ni and 0 <= col_j < grid.nj
-            col = (col_j, col_i)
+        if xyz is None:
+            col = (None, None)
+        elif is_regular:
+            col_j = int(xyz[1] // grid.block_dxyz_dkji[1, 1])
+            col_i = int(xyz[0] // grid.block_dxyz_dkji[2, 0])
+            if 0 <= col_i < grid.ni and 0 <= col_j < grid.nj:
+                col = (col_j, col_i)
+            else:  # intersection is with part of plane beyond the edge of the grid
+                xyz = knot = None
+                col = (None, None)
         else:
             col = surface.column_from_triangle_index(tri)  # j, i pair returned
         results_list.append(xyz)
-- 
2.43.0


From 137df12b70866436a6718c85c279b2b945e05e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:57 +0000
Subject: [PATCH 112/142] fix: mesh flavours from file, supporting mesh
 relationship, tri mesh axial crossings, stencil title and point sets from
 lines

---
 resqpy/surface/_mesh.py             | 12 ++++++++++--
 resqpy/surface/_pointset.py         |  6 +++---
 resqpy/surface/_tri_mesh.py         | 16 +++++++++-------
 resqpy/surface/_tri_mesh_stencil.py |  2 +-
 4 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/resqpy/surface/_mesh.py b/resqpy/surface/_mesh.py
index 73a1825..3d7f221 100644
--- a/resqpy/surface/_mesh.py
+++ b/resqpy/surface/_mesh.py
@@ -316,6 +316,9 @@ class Mesh(rqsb.BaseSurface):
             log.error('mesh has bad flavour when creating xml')
             return None
 
+        if self.flavour == 'ref&z':
+            ref_root = self.model.root_for_uuid(self.ref_uuid)
+
         if add_as_part:
             self.__create_xml_add_parts(g2d_node, ref_root, add_relationships, ext_uuid)
 
@@ -408,15 +411,17 @@ class Mesh(rqsb.BaseSurface):
             if mesh_flavour in ['regular', 'reg&z']:
                 self.regular_origin = (min_x, min_y, 0.0)
                 self.regular_dxyz_dij = dxyz_dij
+                if mesh_flavour == 'regular':  # z values discarded
+                    self.full_array[..., 2] = 0.0
             elif mesh_flavour == 'ref&z':
                 self.ref_mesh = Mesh(self.model,
                                      ni = self.ni,
                                      nj = self.nj,
-                                     origin = self.regular_origin,
+                                     origin = (min_x, min_y, 0.0),
                                      dxyz_dij = dxyz_dij,
                                      crs_uuid = crs_uuid)
                 assert self.ref_mesh is not None
-                assert self.ref_mesh.nj == nj and self.ref_mesh.ni == ni
+                self.ref_uuid = self.ref_mesh.uuid
             else:
                 log.critical('code failure')
         assert self.crs_uuid is not None, 'crs uuid missing'
@@ -671,6 +676,9 @@ class Mesh(rqsb.BaseSurface):
             else:
                 oc_node.text = str(self.nj - 1)
 
+        if self.model.part_for_uuid(self.ref_uuid) is None and self.ref_mesh is not None:
+            # supporting mesh has been generated when loading from file
+            self.ref_mesh.create_xml()
         ref_root = self.model.root_for_uuid(self.ref_uuid)
         self.model.create_ref_node('SupportingRepresentation',
                                    rqet.find_nested_tags_text(ref_root, ['Citation', 'Title']),
diff --git a/resqpy/surface/_pointset.py b/resqpy/surface/_pointset.py
index 8a55ee0..e0aa9de 100644
--- a/resqpy/surface/_pointset.py
+++ b/resqpy/surface/_pointset.py
@@ -145,7 +145,7 @@ class PointSet(rqsb.BaseSurface):
             charisma_file: a charisma 3d interpretation file
         """
         with open(charisma_file, 'r') as surf:
-            cpoints = np.loadtxt(surf, usecols = (6, 7, 8), encoding = 'uft-8')
+            cpoints = np.loadtxt(surf, usecols = (6, 7, 8), encoding = 'uft-8', ndmin = 2)
         self.add_patch(cpoints)
         assert self.crs_uuid is not None, 'crs uuid missing when establishing point set from charisma file'
         if not self.title:
@@ -160,7 +160,7 @@ class PointSet(rqsb.BaseSurface):
                 it is excluded
         """
         with open(irap_file, 'r') as points:
-            cpoints = np.loadtxt(points, encoding = 'uft-8')
+            cpoints = np.loadtxt(points, encoding = 'uft-8', ndmin = 2)
         assert len(cpoints), f'no points loaded from irap file: {irap_file}'
         assert cpoints.ndim == 2 and cpoints.shape[1] == 3
         if remove_trailing_999 and np.all(np.isclose(cpoints[-1], 999.0)):
@@ -213,7 +213,7 @@ class PointSet(rqsb.BaseSurface):
             assert master_crs is not None
             assert poly_coords is not None
             if not curr_crs.is_equivalent(master_crs):
-                shifted = curr_crs.convert_array_to(master_crs, poly.coordinates)
+                shifted = curr_crs.convert_array_to(master_crs, poly.coordinates.copy())
                 poly_coords = concat_polyset_points(poly.isclosed, shifted, poly_coords)
             else:
                 poly_coords = concat_polyset_points(poly.isclosed, poly.coordinates, poly_coords)
diff --git a/resqpy/surface/_tri_mesh.py b/resqpy/surface/_tri_mesh.py
index 2b531fa..fa43385 100644
--- a/resqpy/surface/_tri_mesh.py
+++ b/resqpy/surface/_tri_mesh.py
@@ -482,14 +482,16 @@ class TriMesh(rqs.Mesh):
         zero = xyz[..., axis] - value
         abs_zero = np.expand_dims(np.abs(zero), axis = -1)
         p = np.empty((0, 3), dtype = float)
+        if axis < 2 and self.origin is not None:
+            value = value - self.origin[axis]
 
         if axis == 0:  # x axis
 
             xi, xr = divmod(value, self.t_side)
-            if xi >= 0.0 and xi + xr < (float(self.ni) - 0.5) * self.t_side:
+            if xi >= 0.0 and value < (float(self.ni) - 0.5) * self.t_side:
                 i = round(xi)
                 xrf = xr / self.t_side
-                if xi + xr < float(self.ni - 1) * self.t_side:
+                if value < float(self.ni - 1) * self.t_side:
                     # I edges, even node j
                     p = xyz[::2, i] * (1.0 - xrf) + xyz[::2, i + 1] * xrf
                 if i or xrf > 0.5:
@@ -519,18 +521,18 @@ class TriMesh(rqs.Mesh):
 
             yi, yr = divmod(value, self.t_side * root_3_by_2)
 
-            if yi >= 0 and yi + yr <= (self.nj - 1) * self.t_side * root_3_by_2:
+            if yi >= 0 and value <= (self.nj - 1) * self.t_side * root_3_by_2:
                 j = round(yi)
-                if yr == 0.0:  # add first and last points from in-line edges
+                if yr == 0.0 or j == self.nj - 1:  # add first and last points from in-line edges
                     p = np.array([xyz[j, 0], xyz[j, -1]], dtype = float)
                 else:
                     yrp = yr / (self.t_side * root_3_by_2)
                     p = xyz[j, :] * (1.0 - yrp) + xyz[j + 1, :] * yrp
                     if j % 2:
-                        pp = xyz[j, 1:] * (1.0 - yrp) + xyz[j + 1, :-1] * yrp
-                    else:
                         pp = xyz[j, :-1] * (1.0 - yrp) + xyz[j + 1, 1:] * yrp
-                p = np.concatenate((p, pp))
+                    else:
+                        pp = xyz[j, 1:] * (1.0 - yrp) + xyz[j + 1, :-1] * yrp
+                    p = np.concatenate((p, pp))
 
         else:  # z axis
 
diff --git a/resqpy/surface/_tri_mesh_stencil.py b/resqpy/surface/_tri_mesh_stencil.py
index f5f2784..0316e6c 100644
--- a/resqpy/surface/_tri_mesh_stencil.py
+++ b/resqpy/surface/_tri_mesh_stencil.py
@@ -271,7 +271,7 @@ class TriMeshStencil:
                          ni = tri_mesh.ni,
                          origin = tri_mesh.origin,
                          z_uom = tri_mesh.z_uom,
-                         title = title,
+                         title = title if title else tri_mesh.title,
                          z_values = tm_z_applied,
                          surface_role = tri_mesh.surface_role,
                          crs_uuid = tri_mesh.crs_uuid)
-- 
2.43.0


From c3333ff353709c24b74552a8503dbeaceeb52081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:55 +0000
Subject: [PATCH 113/142] fix: polyline area, orientation, hull, mapping and
 set conversion defects

---
 resqpy/lines/_common.py       |   4 +-
 resqpy/lines/_polyline.py     | 116 ++++++++++++++--------------------
 resqpy/lines/_polyline_set.py |  61 +++++++++---------
 resqpy/olio/intersection.py   |  12 ++--
 resqpy/olio/triangulation.py  |   2 +-
 5 files changed, 84 insertions(+), 111 deletions(-)

diff --git a/resqpy/lines/_common.py b/resqpy/lines/_common.py
index 17d1233..51c91cf 100644
--- a/resqpy/lines/_common.py
+++ b/resqpy/lines/_common.py
@@ -82,7 +82,7 @@ def shift_polyline(parent_model, poly_root, xyz_shift = (0, 0, 0), title = ''):
 
     from resqpy.lines._polyline import Polyline
 
-    poly = Polyline(parent_model = parent_model, poly_root = poly_root)
+    poly = Polyline(parent_model = parent_model, uuid = rqet.uuid_for_part_root(poly_root))
     if title != '':
         poly.title = title
     else:
@@ -100,7 +100,7 @@ def flatten_polyline(parent_model, poly_root, axis = "z", value = 0.0, title = '
     axis = axis.lower()
     value = float(value)
     assert axis in ["x", "y", "z"], 'Axis must be x, y or z'
-    poly = Polyline(parent_model = parent_model, poly_root = poly_root)
+    poly = Polyline(parent_model = parent_model, uuid = rqet.uuid_for_part_root(poly_root))
     if title != '':
         poly.title = title
     else:
diff --git a/resqpy/lines/_polyline.py b/resqpy/lines/_polyline.py
index e096b06..4391733 100644
--- a/resqpy/lines/_polyline.py
+++ b/resqpy/lines/_polyline.py
@@ -270,27 +270,7 @@ class Polyline(rql_c._BasePolyline):
         if len(original.coordinates) == 3 or original.is_convex():
             coords = original.coordinates
         else:
-            oc = original.coordinates
-            while True:
-                ol = len(oc)
-                assert ol >= 3
-                hull_mask = np.zeros(ol, dtype = bool)
-                for i in range(ol):
-                    if i == 0:
-                        coords = oc[1:]
-                    elif i == ol - 1:
-                        coords = oc[:-1]
-                    else:
-                        coords = np.concatenate((oc[:i], oc[i + 1:]))
-                    if mode == 'crossing':
-                        inside = pip.pip_cn(oc[i], coords)
-                    else:
-                        inside = pip.pip_wn(oc[i], coords)
-                    hull_mask[i] = not inside
-                if np.all(hull_mask):
-                    coords = oc
-                    break
-                oc = oc[hull_mask]
+            coords = original.coordinates[_hull_indices(original.coordinates, original._signed_area() < 0.0)]
             assert len(coords) >= 3
 
         polyline = cls(original.model, is_closed = True, set_coord = coords, set_crs = original.crs_uuid, title = title)
@@ -324,7 +304,12 @@ class Polyline(rql_c._BasePolyline):
             if cw_bool is None:
                 result = False  # whole polyline lies in a straight line
             if result:
-                extras['is_clockwise'] = str(cw_bool).lower()
+                # check that polyline only winds once
+                v = self.coordinates[:, :2] - np.roll(self.coordinates[:, :2], 1, axis = 0)
+                v = v[np.any(v != 0.0, axis = 1)]
+                w = np.roll(v, -1, axis = 0)
+                turns = np.arctan2(v[:, 0] * w[:, 1] - v[:, 1] * w[:, 0], np.sum(v * w, axis = 1))
+                result = bool(np.sum(np.abs(turns)) < 3.0 * maths.pi)
         extras['is_convex'] = str(result).lower()
         self.append_extra_metadata(extras)
         return result
@@ -335,9 +320,7 @@ class Polyline(rql_c._BasePolyline):
         assert self.isclosed, 'Polyline.is_clockwise() called for open polyline (only applicable to closed polylines)'
         if trust_metadata and self.extra_metadata is not None and 'is_clockwise' in self.extra_metadata.keys():
             return str(self.extra_metadata['is_clockwise']).lower() == 'true'
-        centre = np.mean(self.coordinates, axis = 0)
-        cw = vu.clockwise(centre, self.coordinates[0], self.coordinates[1])
-        result = (cw > 0.0)
+        result = (self._signed_area() < 0.0)
         crs = rqc.Crs(self.model, uuid = self.crs_uuid)
         if crs.is_right_handed_xy():
             result = not result
@@ -400,9 +383,8 @@ class Polyline(rql_c._BasePolyline):
         normal_vector = np.zeros(3)
         normal_vector[0] = -segment_vector[1]
         normal_vector[1] = segment_vector[0]
-        cw = self.is_clockwise()
-        assert cw is not None, 'polyline is straight'
-        if not cw:
+        assert self.isclosed, 'normal requested for segment of open polyline'
+        if self._signed_area() > 0.0:  # anti-clockwise with respect to the local xy axes
             normal_vector = -normal_vector
         return normal_vector
 
@@ -463,6 +445,8 @@ class Polyline(rql_c._BasePolyline):
     def balanced_centre(self, mode = 'weighted', n = 20, cache = True, in_xy = False):
         """Returns a mean x,y,z based on sampling polyline at regular intervals."""
 
+        if mode != 'weighted' or in_xy:
+            cache = False  # only the default form of centre is cached
         if cache and self.centre is not None:
             return self.centre
         assert mode in ['weighted', 'sampled']
@@ -642,15 +626,11 @@ class Polyline(rql_c._BasePolyline):
         segment, px, py = self.first_line_intersection(centre_xy[0], centre_xy[1], x, y, half_segment = True)
         assert px is not None
         norm_x, norm_y = None, None
-        if mode == 'square':  # todo: check square mode – looks wrong
-            if px == centre_xy[0]:
-                norm_x = 0.5
-            else:
-                norm_x = 0.5 + 0.5 * (x - centre_xy[0]) / abs(px - centre_xy[0])
-            if py == centre_xy[1]:
-                norm_y = 0.5
-            else:
-                norm_y = 0.5 + 0.5 * (y - centre_xy[1]) / abs(py - centre_xy[1])
+        if mode == 'square':
+            d_xy = np.array((x, y)) - centre_xy
+            dp_xy = np.array((px, py)) - centre_xy
+            # both vectors have the same direction, which is also the direction from the centre of the unit square
+            norm_x, norm_y = 0.5 + 0.5 * d_xy / np.max(np.abs(dp_xy))
         elif mode == 'circle':
             d_xy = np.array((x, y)) - centre_xy
             dp_xy = np.array((px, py)) - centre_xy
@@ -744,7 +724,7 @@ class Polyline(rql_c._BasePolyline):
             if norm_y == 1.0:
                 norm_y = 0.0
             p_xy = np.empty(2)
-            p_xy[:] = self.interpolated_point(norm_y)[:2]
+            p_xy[:] = self.interpolated_point(norm_y, in_xy = True)[:2]
             f = maths.sqrt(norm_x)
             x, y = centre_xy + f * (p_xy - centre_xy)
         elif mode == 'circle':
@@ -760,7 +740,7 @@ class Polyline(rql_c._BasePolyline):
     def tangent_vectors(self):
         """Returns a numpy array of unit length tangent vectors, one for each coordinate in the line."""
 
-        return rql_c.tangents(self.coordinates)
+        return rql_c.tangents(self.coordinates, closed = self.isclosed and len(self.coordinates) > 2)
 
     def splined(self,
                 tangent_weight = 'square',
@@ -794,30 +774,9 @@ class Polyline(rql_c._BasePolyline):
                         rep_int_root = rep_int_root)
 
     def area(self):
-        """Returns the area in the xy plane of a closed convex polygon."""
+        """Returns the area in the xy plane of a closed polygon, which must not cross itself."""
         assert self.isclosed
-        if self.is_convex():
-            centre = np.mean(self.coordinates, axis = 0)
-            a = 0.0
-            for node in range(len(self.coordinates)):
-                a += vu.area_of_triangle(centre, self.coordinates[node - 1], self.coordinates[node])
-        else:  # use a regular 2D sampling of points to determine approx area
-            xy_box = np.zeros((2, 2), dtype = float)
-            xy_box[0] = np.min(self.coordinates[:, :2], axis = 0)
-            xy_box[1] = np.max(self.coordinates[:, :2], axis = 0)
-            assert np.all(xy_box[1] > xy_box[0])
-            d_xy = xy_box[1] - xy_box[0]
-            d = d_xy[0] + d_xy[1]
-            f_xy = d_xy / d
-            n_xy = np.ceil(100.0 * f_xy).astype(int)
-            x = np.linspace(xy_box[0, 0], xy_box[1, 0], num = n_xy[0], dtype = float)
-            y = np.linspace(xy_box[0, 1], xy_box[1, 1], num = n_xy[1], dtype = float)
-            xy = np.stack(np.meshgrid(x, y), axis = -1).reshape((-1, 2))
-            inside = pip.pip_array_cn(xy, self.coordinates)
-            nf_xy = n_xy.astype(float)
-            d_xy *= (nf_xy + 1.0) / nf_xy
-            a = d_xy[0] * d_xy[1] * float(np.count_nonzero(inside)) / float(inside.size)
-        return a
+        return abs(self._signed_area())
 
     def extract_property_collection(self, refresh = False):
         """Returns a property collection for the polyline.
@@ -866,12 +825,7 @@ class Polyline(rql_c._BasePolyline):
 
         if self.rep_int_root is not None:
             rep_int = self.rep_int_root
-            if "FaultInterpretation" in str(rqet.content_type(rep_int)):
-                content_type = 'obj_FaultInterpretation'
-            elif "HorizonInterpretation" in str(rqet.content_type(rep_int)):
-                content_type = 'obj_HorizonInterpretation'
-            else:
-                content_type = 'obj_BoundaryFeatureInterpretation'
+            content_type = self.model.type_of_uuid(rqet.uuid_for_part_root(rep_int))
             self.model.create_ref_node('RepresentedInterpretation',
                                        rqet.citation_title_for_node(rep_int),
                                        rep_int.attrib['uuid'],
@@ -938,6 +892,13 @@ class Polyline(rql_c._BasePolyline):
         h5_reg.register_dataset(self.uuid, 'points_patch0', self.coordinates)
         h5_reg.write(file_name, mode = mode)
 
+    def _signed_area(self):
+        """Returns area of closed polygon in xy plane: positive if anti-clockwise with respect to the local axes."""
+
+        xy = self.coordinates[:, :2] - self.coordinates[0, :2]
+        xy_next = np.roll(xy, -1, axis = 0)
+        return 0.5 * float(np.sum(xy[:, 0] * xy_next[:, 1] - xy_next[:, 0] * xy[:, 1]))
+
     def _successor(self, segment_index):
         """Returns segment_index + 1; or zero if segment_index is the last segment in a closed polyline."""
 
@@ -949,3 +910,22 @@ class Polyline(rql_c._BasePolyline):
         else:
             assert 0 <= segment_index < len(self.coordinates) - 1
         return successor
+
+
+def _hull_indices(coords, clockwise):
+    """Returns list of indices of the points which are vertices of the convex hull of coords in the xy plane."""
+
+    def chain(indices):
+        hull = []
+        for i in indices:
+            while len(hull) > 1 and vu.clockwise(coords[hull[-2]], coords[hull[-1]], coords[i]) >= 0.0:
+                hull.pop()
+            hull.append(i)
+        return hull[:-1]
+
+    order = np.lexsort((coords[:, 1], coords[:, 0]))
+    hull = chain(order) + chain(order[::-1])
+    if clockwise:
+        hull.reverse()
+    start = hull.index(min(hull))
+    return hull[start:] + hull[:start]
diff --git a/resqpy/lines/_polyline_set.py b/resqpy/lines/_polyline_set.py
index 1481f04..aa55c4f 100644
--- a/resqpy/lines/_polyline_set.py
+++ b/resqpy/lines/_polyline_set.py
@@ -178,7 +178,7 @@ class PolylineSet(rql_c._BasePolyline):
                     closed_array.append(True)
                 else:
                     closed_array.append(False)
-                if i == 0:
+                if self.coordinates is None:
                     self.coordinates = poly
                 else:
                     self.coordinates = np.concatenate((self.coordinates, poly))
@@ -195,25 +195,23 @@ class PolylineSet(rql_c._BasePolyline):
         closed_array = []
         if not self.title:
             self.title = os.path.basename(charisma_file).split(".")[0]
-        for i, line in enumerate(inpoints):
+        sticks = []  # list of lists of points
+        stick = None
+        for line in inpoints:
             line = line.split()
-            coord_entry = np.array([[float(line[3]), float(line[4]), float(line[5])]])
-            if i == 0:
-                self.coordinates = coord_entry
+            if len(sticks) == 0 or stick != line[7]:
+                sticks.append([])
                 stick = line[7]
-                count = 1
-            else:
-                self.coordinates = np.concatenate((self.coordinates, coord_entry))
-                count += 1
-                if stick != line[7] or i == len(inpoints) - 1:
-                    if count <= 2 and stick != line[7]:  # Line has fewer than 2 points
-                        log.warning(f"Polylines must contain at least 2 points - ignoring point {self.coordinates[-2]}")
-                        self.coordinates = np.delete(self.coordinates, -2, 0)  # Remove the second to last entry
-                    else:
-                        self.count_perpol.append(count - 1)
-                        closed_array.append(False)
-                    count = 1
-                    stick = line[7]
+            sticks[-1].append((float(line[3]), float(line[4]), float(line[5])))
+        kept_points = []
+        for points in sticks:
+            if len(points) < 2:  # Line has fewer than 2 points
+                log.warning(f"Polylines must contain at least 2 points - ignoring point {points[0]}")
+                continue
+            kept_points += points
+            self.count_perpol.append(len(points))
+            closed_array.append(False)
+        self.coordinates = np.array(kept_points, dtype = float).reshape((-1, 3))
         self.count_perpol = np.array(self.count_perpol)
         if self.crs_uuid is None:  # If no crs_uuid is provided, assume the main model crs is valid
             self.crs_uuid = self.model.crs_uuid
@@ -268,10 +266,7 @@ class PolylineSet(rql_c._BasePolyline):
 
         if self.rep_int_root is not None:
             rep_int = self.rep_int_root
-            if "FaultInterpretation" in str(rqet.content_type(rep_int)):
-                content_type = 'obj_FaultInterpretation'
-            else:
-                content_type = 'obj_HorizonInterpretation'
+            content_type = self.model.type_of_uuid(rqet.uuid_for_part_root(rep_int))
             self.model.create_ref_node('RepresentedInterpretation',
                                        rqet.citation_title_for_node(rep_int),
                                        rep_int.attrib['uuid'],
@@ -372,7 +367,7 @@ class PolylineSet(rql_c._BasePolyline):
                                                               'sourceObject')
                 if self.save_polys:
                     for poly in self.polys:
-                        self.model.create_reciprocal_relationship(polyset, 'destinationObject', poly.root_node,
+                        self.model.create_reciprocal_relationship(polyset, 'destinationObject', poly.root,
                                                                   'sourceObject')
 
                 ext_part = rqet.part_name_for_object('obj_EpcExternalPartReference', ext_uuid, prefixed = False)
@@ -461,7 +456,9 @@ class PolylineSet(rql_c._BasePolyline):
 
         if count_perpol is None:
             count_perpol = self.count_perpol
-        if closed_array is None:
+        if closed_array is None and self.closed_array is not None and len(self.closed_array) == len(count_perpol):
+            closed_array = self.closed_array
+        if closed_array is None and self.root is not None:
             closed_array = np.zeros(len(count_perpol), dtype = bool)
             closed_node = rqet.find_nested_tags(self.root, ['LinePatch', 'ClosedPolylines'])
             if closed_node is not None:
@@ -482,7 +479,7 @@ class PolylineSet(rql_c._BasePolyline):
                 subset = coordinates[count:int(count_perpol[i]) + count].copy()
             else:
                 subset = coordinates[count:int(count_perpol[i]) + count + 1].copy()  # is this correct?
-            duplicated_end_points = np.all(np.isclose(subset[0], subset[-1])) and len(subset) > 2
+            duplicated_end_points = len(subset) > 2 and vu.isclose(subset[0], subset[-1])
             if closed_array is None:
                 isclosed = duplicated_end_points
             else:
@@ -511,15 +508,15 @@ class PolylineSet(rql_c._BasePolyline):
         self.count_perpol = []
         self.closed_array = []
 
-        for poly in polylines:
-            if poly == polylines[0]:
+        for i, poly in enumerate(polylines):
+            if i == 0:
                 master_crs = rcrs.Crs(self.model, uuid = poly.crs_uuid)
                 self.crs_uuid = poly.crs_uuid
                 self.coordinates = poly.coordinates.copy()
             else:
                 curr_crs = rcrs.Crs(self.model, uuid = poly.crs_uuid)
                 if not curr_crs.is_equivalent(master_crs):
-                    shifted = curr_crs.convert_array_to(master_crs, poly.coordinates)
+                    shifted = curr_crs.convert_array_to(master_crs, poly.coordinates.copy())
                     self.coordinates = np.concatenate((self.coordinates, shifted))
                 else:
                     self.coordinates = np.concatenate((self.coordinates, poly.coordinates))
@@ -586,11 +583,11 @@ class PolylineSet(rql_c._BasePolyline):
         """
 
         end_of_line = np.array([[999.0, 999.0, 999.0]])
+        out_coords = np.empty((0, 3))
         for poly in self.polys:
-            if poly == self.polys[0]:
-                out_coords = poly.coordinates
-            else:
-                out_coords = np.concatenate((out_coords, poly.coordinates))
+            out_coords = np.concatenate((out_coords, poly.coordinates))
+            if poly.isclosed and not vu.isclose(poly.coordinates[0], poly.coordinates[-1]):
+                out_coords = np.concatenate((out_coords, poly.coordinates[:1]))  # closure indicated by repeated point
             out_coords = np.concatenate((out_coords, end_of_line))
         np.savetxt(file_name, out_coords, delimiter = ' ')
 
diff --git a/resqpy/olio/intersection.py b/resqpy/olio/intersection.py
index ca168ee..d0577dd 100644
--- a/resqpy/olio/intersection.py
+++ b/resqpy/olio/intersection.py
@@ -404,21 +404,17 @@ def line_line_intersect(x1, y1, x2, y2, x3, y3, x4, y4, line_segment = False, ha
     if divisor == 0.0:
         return None, None  # parallel or coincident lines
 
+    t = ((x1 - x3) * (y3 - y4) - (y1 - y3) * (x3 - x4)) / divisor
+
     if line_segment:
-        t = ((x1 - x3) * (y3 - y4) - (y1 - y3) * (x3 - x4)) / divisor
         if t < 0.0 or (not half_segment and t > 1.0):
             return None, None
         u = -((x1 - x2) * (y1 - y3) - (y1 - y2) * (x1 - x3)) / divisor
         if not (0.0 <= u <= 1.0):
             return None, None
-        x = x1 + t * (x2 - x1)
-        y = y1 + t * (y2 - y1)
 
-    else:
-        a = x1 * y2 - y1 * x2
-        b = x3 * y4 - y3 * x4
-        x = (a * (x3 - x4) - (x1 - x2) * b) / divisor
-        y = (a * (y3 - y4) - (y1 - y2) * b) / divisor
+    x = x1 + t * (x2 - x1)
+    y = y1 + t * (y2 - y1)
 
     return x, y
 
diff --git a/resqpy/olio/triangulation.py b/resqpy/olio/triangulation.py
index 23a8262..96a1697 100644
--- a/resqpy/olio/triangulation.py
+++ b/resqpy/olio/triangulation.py
@@ -570,7 +570,7 @@ def voronoi(p, t, b, aoi: "rql.Polyline"):
     assert b.ndim == 1 and b.shape[0] > 2
     assert len(aoi.coordinates) >= 3
     assert aoi.isclosed
-    assert aoi.is_clockwise()
+    assert aoi._signed_area() < 0.0, 'area of interest must be clockwise with respect to local axes'
 
     # create temporary polyline for hull of triangulation
     hull = rql.Polyline(aoi.model,
-- 
2.43.0


From 714eb0d2d847e95996671d882bfb81ea4ae284ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:18 +0000
Subject: [PATCH 114/142] fix: planar face points, single layer prism grids and
 hexa grid conversion defects

---
 resqpy/unstructured/_hexa_grid.py         | 17 ++++++++++++-----
 resqpy/unstructured/_prism_grid.py        |  2 +-
 resqpy/unstructured/_unstructured_grid.py |  8 ++++----
 3 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/resqpy/unstructured/_hexa_grid.py b/resqpy/unstructured/_hexa_grid.py
index 3f94bb5..2bd9492 100644
--- a/resqpy/unstructured/_hexa_grid.py
+++ b/resqpy/unstructured/_hexa_grid.py
@@ -111,6 +111,8 @@ class HexaGrid(rug.UnstructuredGrid):
                 log.warning(f'all cells marked as inactive for unstructured hexa grid {hexa_grid.title}')
         else:
             hexa_grid.all_inactive = False
+        if write_active is None:
+            write_active = (hexa_grid.inactive is not None)
 
         # inherit points (nodes) in IJK grid order, ie. K cycling fastest, then I, then J
         hexa_grid.points_cached = ijk_points.reshape((-1, 3))
@@ -144,7 +146,7 @@ class HexaGrid(rug.UnstructuredGrid):
             hexa_grid.faces_per_cell[6 * cell + 4] = i_minus_face  # I- face
             hexa_grid.faces_per_cell[6 * cell + 5] = i_minus_face + nkj  # I+ face
 
-        # setup nodes per face, clockwise when viewed from negative side of face if ijk handedness matches xyz handedness
+        # setup nodes per face, clockwise when viewed from positive side of face if IJK grid is right handed
         # ordering of nodes in points array is as for the IJK grid
         hexa_grid.node_count = hexa_grid.points_cached.shape[0]
         assert hexa_grid.node_count == (ijk_grid.nk + 1) * (ijk_grid.nj + 1) * (ijk_grid.ni + 1)
@@ -190,8 +192,8 @@ class HexaGrid(rug.UnstructuredGrid):
         # here the assumption is clockwise ordering of nodes viewed from within cell means 'right handed'
         hexa_grid.cell_face_is_right_handed = np.zeros(6 * hexa_grid.cell_count,
                                                        dtype = bool)  # initially set to left handed
-        # if IJK grid's ijk handedness matches the xyz handedness, then set +ve faces to right handed; else -ve faces
-        if ijk_grid.off_handed():
+        # if IJK grid is right handed, then set -ve faces to right handed; else +ve faces
+        if ijk_grid.extract_grid_is_right_handed():
             hexa_grid.cell_face_is_right_handed[0::2] = True  # negative faces are right handed
         else:
             hexa_grid.cell_face_is_right_handed[1::2] = True  # positive faces are right handed
@@ -205,8 +207,13 @@ class HexaGrid(rug.UnstructuredGrid):
             for part in ijk_pc.parts():
                 count = ijk_pc.count_for_part(part)
                 hexa_part_shape = (hexa_grid.cell_count,) if count == 1 else (hexa_grid.cell_count, count)
+                const_value = ijk_pc.constant_value_for_part(part)
+                if const_value is None:
+                    hexa_array = ijk_pc.cached_part_array_ref(part).reshape(hexa_part_shape)
+                else:
+                    hexa_array = None
                 hexa_pc.add_cached_array_to_imported_list(
-                    ijk_pc.cached_part_array_ref(part).reshape(hexa_part_shape),
+                    hexa_array,
                     'inherited from grid ' + str(ijk_grid.title),
                     ijk_pc.citation_title_for_part(part),
                     discrete = not ijk_pc.continuous_for_part(part),
@@ -220,7 +227,7 @@ class HexaGrid(rug.UnstructuredGrid):
                     realization = ijk_pc.realization_for_part(part),
                     indexable_element = ijk_pc.indexable_for_part(part),
                     count = count,
-                    const_value = ijk_pc.constant_value_for_part(part))
+                    const_value = const_value)
                 # todo: patch min & max values if present in ijk part
                 hexa_pc.write_hdf5_for_imported_list()
                 hexa_pc.create_xml_for_imported_list_and_add_parts_to_model(
diff --git a/resqpy/unstructured/_prism_grid.py b/resqpy/unstructured/_prism_grid.py
index 7d9a26b..cc30770 100644
--- a/resqpy/unstructured/_prism_grid.py
+++ b/resqpy/unstructured/_prism_grid.py
@@ -412,7 +412,7 @@ class VerticalPrismGrid(PrismGrid):
     def column_count(self):
         """Returns the number of columns in the grid."""
 
-        assert self.nk > 1, 'no layer information set for vertical prism grid'
+        assert self.nk is not None and self.nk > 0, 'no layer information set for vertical prism grid'
         n_col, remainder = divmod(self.cell_count, self.nk)
         assert remainder == 0, 'code failure for vertical prism grid: cell and layer counts not compatible'
         return n_col
diff --git a/resqpy/unstructured/_unstructured_grid.py b/resqpy/unstructured/_unstructured_grid.py
index 915a7e4..4ce4845 100644
--- a/resqpy/unstructured/_unstructured_grid.py
+++ b/resqpy/unstructured/_unstructured_grid.py
@@ -453,7 +453,7 @@ class UnstructuredGrid(BaseResqpy):
         """Returns the largest number of faces in use by any one cell."""
 
         self.cache_all_geometry_arrays()
-        return max(self.faces_per_cell_cl[0], np.max(self.faces_per_cell_cl[1:] - self.faces_per_cell_cl[:-1]))
+        return np.max(np.diff(self.faces_per_cell_cl, prepend = 0))
 
     def node_count_for_face(self, face_index):
         """Returns the number of nodes for a particular face."""
@@ -466,7 +466,7 @@ class UnstructuredGrid(BaseResqpy):
         """Returns the largest number of nodes in use by any one face."""
 
         self.cache_all_geometry_arrays()
-        return max(self.nodes_per_face_cl[0], np.max(self.nodes_per_face_cl[1:] - self.nodes_per_face_cl[:-1]))
+        return np.max(np.diff(self.nodes_per_face_cl, prepend = 0))
 
     def node_indices_for_face(self, face_index):
         """Returns numpy list of node indices for a single face.
@@ -691,11 +691,11 @@ class UnstructuredGrid(BaseResqpy):
         normal = self.face_normal(face_index)
         az = vec.azimuth(normal)
         incl = vec.inclination(normal)
-        vec.tilt_points(face_centre, az, -incl, face_points)  # modifies face_points in situ
+        vec.tilt_points(face_centre, az, incl, face_points)  # modifies face_points in situ
         face_points[..., 2] = 0.0
         if not xy_plane:
             face_centre[2] = 0.0
-            vec.tilt_points(face_centre, az, incl, face_points)  # tilt back to original average normal
+            vec.tilt_points(face_centre, az, -incl, face_points)  # tilt back to original average normal
             if crs.xy_units != crs.z_units:
                 wam.convert_lengths(face_points[:, 2], crs.xy_units, crs.z_units)
             face_points[..., 2] += z_centre
-- 
2.43.0


From 4a1f25a2e0d2a91cf221b375cd0954c4b2ef2613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:47 +0000
Subject: [PATCH 115/142] fix: wellbore frame contributions, log refresh,
 marker frames from dataframes and cell i/o logs

---
 resqpy/property/well_log_collection.py |  2 +-
 resqpy/well/_wellbore_frame.py         |  1 +
 resqpy/well/_wellbore_marker.py        |  2 +-
 resqpy/well/_wellbore_marker_frame.py  | 16 ++++++++++------
 resqpy/well/blocked_well_frame.py      |  4 ++++
 resqpy/well/well_object_funcs.py       | 12 +++---------
 6 files changed, 20 insertions(+), 17 deletions(-)

diff --git a/resqpy/property/well_log_collection.py b/resqpy/property/well_log_collection.py
index 6ca9684..d02f7c6 100644
--- a/resqpy/property/well_log_collection.py
+++ b/resqpy/property/well_log_collection.py
@@ -176,7 +176,7 @@ class WellLogCollection(rqp_pc.PropertyCollection):
 
         for well_log in self.iter_logs():
             name = well_log.title
-            unit = well_log.uom
+            unit = well_log.uom or ''
             values = well_log.values()
             if values.ndim > 1:
                 raise NotImplementedError('Multidimensional logs not yet supported in pandas')
diff --git a/resqpy/well/_wellbore_frame.py b/resqpy/well/_wellbore_frame.py
index 4b07301..575e3b3 100644
--- a/resqpy/well/_wellbore_frame.py
+++ b/resqpy/well/_wellbore_frame.py
@@ -157,6 +157,7 @@ class WellboreFrame(BaseResqpy):
         """Returns collection of well logs (nodes properties) for this frame, creating if refresh or not already established."""
         if refresh:
             self.logs = None
+            self.property_collection = None
         if self.logs is None:
             self.logs = rqp.WellLogCollection(frame = self)
         return self.logs
diff --git a/resqpy/well/_wellbore_marker.py b/resqpy/well/_wellbore_marker.py
index 2dc03ec..7ecb58f 100644
--- a/resqpy/well/_wellbore_marker.py
+++ b/resqpy/well/_wellbore_marker.py
@@ -125,7 +125,7 @@ class WellboreMarker():
         wbm_gb_node.text = str(self.marker_type)
 
         if self.interpretation_uuid is not None:
-            interp_content_type = 'obj_' + self.marker_type.capitalize() + 'Interpretation'
+            interp_content_type = self.model.type_of_uuid(self.interpretation_uuid)
             interp_root = self.model.root_for_uuid(uuid = self.interpretation_uuid)
             self.model.create_ref_node(flavour = 'Interpretation',
                                        title = rqet.find_tag(rqet.find_tag(interp_root, 'Citation'), 'Title').text,
diff --git a/resqpy/well/_wellbore_marker_frame.py b/resqpy/well/_wellbore_marker_frame.py
index d7c7171..8ab44fc 100644
--- a/resqpy/well/_wellbore_marker_frame.py
+++ b/resqpy/well/_wellbore_marker_frame.py
@@ -134,8 +134,7 @@ class WellboreMarkerFrame(BaseResqpy):
 
         # create a wellbore marker object for each of the rows of the dataframe
         marker_list = []
-        for i, row in dataframe.iterrows():
-            row_index = i
+        for row_index, (_, row) in enumerate(dataframe.iterrows()):
             row_marker_type = row[boundary_feature_type_col].lower()
             row_interp_uuid = WellboreMarkerFrame.__parse_dataframe_row_for_interp_uuid(
                 parent_model = parent_model,
@@ -145,7 +144,7 @@ class WellboreMarkerFrame(BaseResqpy):
                 create_organizing_objects_where_needed = create_organizing_objects_where_needed)
             row_marker_citation_title = row[marker_citation_title_col]
             row_wellbore_marker_object = rqwbm.WellboreMarker(parent_model = parent_model,
-                                                              parent_frame = WellboreMarkerFrame,
+                                                              parent_frame = None,
                                                               marker_index = row_index,
                                                               marker_type = row_marker_type,
                                                               interpretation_uuid = row_interp_uuid,
@@ -158,8 +157,10 @@ class WellboreMarkerFrame(BaseResqpy):
                                     originator = originator,
                                     extra_metadata = extra_metadata)
         wellbore_marker_frame.node_count = len(dataframe)
-        wellbore_marker_frame.node_mds = np.array(dataframe['MD'])
+        wellbore_marker_frame.node_mds = np.array(dataframe[md_col])
         wellbore_marker_frame.marker_list = marker_list
+        for marker in marker_list:
+            marker.wellbore_frame = wellbore_marker_frame
         # check that the number of measured depths matches the node count and the number of markers
         assert wellbore_marker_frame.node_count == wellbore_marker_frame.node_mds.shape[0] == len(marker_list)
 
@@ -171,8 +172,10 @@ class WellboreMarkerFrame(BaseResqpy):
         """Extract the uuid of the interpretation object that the marker relates to from a row in the dataframe."""
 
         row_marker_type = row_marker_type.lower()
-        if row_marker_type in ['horizon', 'fault', 'geobody']:
+        if row_marker_type in ['horizon', 'fault']:
             row_interp_type = 'obj_' + row_marker_type.capitalize() + 'Interpretation'
+        elif row_marker_type == 'geobody':
+            row_interp_type = 'obj_GeobodyBoundaryInterpretation'
         else:
             row_interp_type = None
         try:
@@ -201,7 +204,8 @@ class WellboreMarkerFrame(BaseResqpy):
         if feature_type == 'fault':
             tbf = rqo.TectonicBoundaryFeature(model, kind = 'fault', feature_name = feature_name)
         else:
-            tbf = rqo.GeneticBoundaryFeature(model, kind = feature_type, feature_name = feature_name)
+            feature_kind = 'geobody boundary' if feature_type == 'geobody' else feature_type
+            tbf = rqo.GeneticBoundaryFeature(model, kind = feature_kind, feature_name = feature_name)
         tbf.create_xml(reuse = True)
         if feature_type == 'fault':
             fi = rqo.FaultInterpretation(model, tectonic_boundary_feature = tbf, is_normal = True)
diff --git a/resqpy/well/blocked_well_frame.py b/resqpy/well/blocked_well_frame.py
index ebe327b..cf8e2a6 100644
--- a/resqpy/well/blocked_well_frame.py
+++ b/resqpy/well/blocked_well_frame.py
@@ -45,6 +45,10 @@ def blocked_well_frame_contributions_list(bw, wbf):
             assert exit_wbf_fr > 0.5
             exit_wbf_i = wbf.node_count - 2
             exit_wbf_fr = 1.0
+        if entry_wbf_i < exit_wbf_i and cell_entry_md >= wbf.node_mds[entry_wbf_i + 1]:
+            # entry coincides with base of frame interval, so that interval makes no contribution
+            entry_wbf_i += 1
+            entry_wbf_fr = 0.0
         assert exit_wbf_i >= entry_wbf_i
         if exit_wbf_i == entry_wbf_i:  # single frame interval contributing to this cell
             assert exit_wbf_fr >= entry_wbf_fr
diff --git a/resqpy/well/well_object_funcs.py b/resqpy/well/well_object_funcs.py
index 6136967..c126d31 100644
--- a/resqpy/well/well_object_funcs.py
+++ b/resqpy/well/well_object_funcs.py
@@ -479,15 +479,9 @@ def add_logs_from_cellio(blockedwell, cellio):
                 lookup_uuid = lookup_dict[log]  # For categorical data, find or generate a StringLookupTable
             else:
                 lookup_uuid = None
-            array_list = np.zeros((np.shape(blockedwell.grid_indices)), dtype = dtype)
-            vals = list(df[log])
-            for i, index in enumerate(blockedwell.cell_grid_link):
-                if index == -1:
-                    assert blockedwell.grid_indices[i] == -1
-                    array_list[i] = null
-                else:
-                    if blockedwell.cell_indices[index] == list(df['cell_indices'])[index]:
-                        array_list[i] = vals[index]
+            # note: one value per blocked cell, ie. excluding unblocked intervals
+            array_list = np.array(df[log], dtype = dtype)
+            assert array_list.shape == (blockedwell.cell_count,)
             collection.add_cached_array_to_imported_list(
                 cached_array = array_list,
                 source_info = '',
-- 
2.43.0


From 7d924d5c43901e445fbe3a19b96ae58f23be5834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:22 +0000
Subject: [PATCH 116/142] fix: blocking a well no longer corrupts the cached
 xyz box of a regular grid

---
 resqpy/grid_surface/_grid_skin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/grid_surface/_grid_skin.py b/resqpy/grid_surface/_grid_skin.py
index 93a5fee..bad3ff8 100644
--- a/resqpy/grid_surface/_grid_skin.py
+++ b/resqpy/grid_surface/_grid_skin.py
@@ -38,7 +38,7 @@ class GridSkin:
         if self.is_regular:
 
             # build a simplified two triangle surface for each of the six skin surfaces
-            xyz_box = grid.xyz_box(local = True)
+            xyz_box = grid.xyz_box(local = True).copy()
             for axis in range(3):
                 if grid.block_dxyz_dkji[2 - axis, axis] < 0.0:
                     xyz_box[:, axis] = (xyz_box[1, axis], xyz_box[0, axis])
-- 
2.43.0


From 6d384169984ddf0afae42549d71312076f73b77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:22 +0000
Subject: [PATCH 117/142] fix: batch item whose surface misses the grid is
 reported as a failure, and unknown related uuid is dropped

---
 resqpy/multi_processing/wrappers/grid_surface_mp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/multi_processing/wrappers/grid_surface_mp.py b/resqpy/multi_processing/wrappers/grid_surface_mp.py
index f9c2c9a..ec3d729 100644
--- a/resqpy/multi_processing/wrappers/grid_surface_mp.py
+++ b/resqpy/multi_processing/wrappers/grid_surface_mp.py
@@ -259,7 +259,7 @@ def find_faces_to_represent_surface_regular_wrapper(
     else:
         gcs = returns
 
-    if gcs.count > 0:
+    if gcs is not None and gcs.count:
         success = True
         gcs.write_hdf5()
         gcs.create_xml(extra_metadata = extra_metadata)
@@ -391,7 +391,7 @@ def find_faces_to_represent_surface_regular_wrapper(
                 find_local_property_kinds = True)
             assert uuids_properties
             uuid_list.extend(uuids_properties)
-            if related_uuid is not None:
+            if related_uuid is not None and relative_found:
                 for p_uuid in uuids_properties:
                     # log.debug(f'creating relationship between: {p_uuid} and {related_uuid}')
                     model.create_reciprocal_relationship_uuids(p_uuid, 'sourceObject', related_uuid,
-- 
2.43.0


From c2248a59c131763b520e75de8548f77f860a763f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:22 +0000
Subject: [PATCH 118/142] fix: batch results with no uuid list, or with uuids
 given as mixed types, are recombined

---
 resqpy/multi_processing/_multiprocessing.py | 3 ++-
 resqpy/olio/consolidation.py                | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/resqpy/multi_processing/_multiprocessing.py b/resqpy/multi_processing/_multiprocessing.py
index 004b221..b322920 100644
--- a/resqpy/multi_processing/_multiprocessing.py
+++ b/resqpy/multi_processing/_multiprocessing.py
@@ -143,9 +143,10 @@ def function_multiprocessing(function: Callable,
                 if attempt >= 10:
                     raise FileNotFoundError(f'timeout waiting for mp epc {epc}')
                 time.sleep(1)
-        uuids = cons.sort_uuids_list(model, uuids_list[i])
+        uuids = uuids_list[i]
         if uuids is None:
             uuids = model.uuids()
+        uuids = cons.sort_uuids_list(model, uuids)
         for u in uuids:
             attempt = 0
             while True:
diff --git a/resqpy/olio/consolidation.py b/resqpy/olio/consolidation.py
index eb65890..aa2f2be 100644
--- a/resqpy/olio/consolidation.py
+++ b/resqpy/olio/consolidation.py
@@ -196,5 +196,5 @@ def sort_uuids_list(model, uuids_list):
     pair_list = [
         (_ordering(model.type_of_part(model.part_for_uuid(uuid), strip_obj = True)), uuid) for uuid in uuids_list
     ]
-    pair_list.sort()
+    pair_list.sort(key = lambda pair: pair[0])  # uuids may be of mixed types so are not compared
     return [uuid for _, uuid in pair_list]
-- 
2.43.0


From cfaa7fc22925111c12d5216c0100ec825aedf254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:20 +0000
Subject: [PATCH 119/142] fix: point in polygon functions do not read outside
 an empty polygon

---
 resqpy/olio/vector_utilities.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resqpy/olio/vector_utilities.py b/resqpy/olio/vector_utilities.py
index 17323d5..7ec7e96 100644
--- a/resqpy/olio/vector_utilities.py
+++ b/resqpy/olio/vector_utilities.py
@@ -643,6 +643,8 @@ def point_in_polygon(x, y, polygon):  # pragma: no cover
     """
     n = len(polygon)
     inside = False
+    if n == 0:
+        return inside
     p2x = 0.0
     p2y = 0.0
     xints = 0.0
-- 
2.43.0


From 556fd78651b939add753e16a18b3a713a4bccf6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:20 +0000
Subject: [PATCH 120/142] fix: column extremes ignore a leading nan

---
 resqpy/olio/vector_utilities.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/resqpy/olio/vector_utilities.py b/resqpy/olio/vector_utilities.py
index 7ec7e96..7015898 100644
--- a/resqpy/olio/vector_utilities.py
+++ b/resqpy/olio/vector_utilities.py
@@ -1542,9 +1542,9 @@ def _nanmax(array):  # pragma: no cover
     max_array = np.empty(len0)
     for col in range(len0):
         col_array = array[:, col]
-        max_val = col_array[0]
+        max_val = np.nan
         for val in col_array:
-            if val > max_val and not np.isnan(val):
+            if np.isnan(max_val) or val > max_val:
                 max_val = val
         max_array[col] = max_val
     return max_array
@@ -1557,9 +1557,9 @@ def _nanmin(array):  # pragma: no cover
     min_array = np.empty(len0)
     for col in range(len0):
         col_array = array[:, col]
-        min_val = col_array[0]
+        min_val = np.nan
         for val in col_array:
-            if val < min_val and not np.isnan(val):
+            if np.isnan(min_val) or val < min_val:
                 min_val = val
         min_array[col] = min_val
     return min_array
-- 
2.43.0


From f2b0be8a03ed56961162f4f221ec6e54c72cff4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:50 +0000
Subject: [PATCH 121/142] fix: dataframe realisations, units and extra metadata
 are stored and retrieved

---
 resqpy/olio/dataframe.py | 57 ++++++++++++++++++++++------------------
 resqpy/olio/relperm.py   |  4 +--
 2 files changed, 33 insertions(+), 28 deletions(-)

diff --git a/resqpy/olio/dataframe.py b/resqpy/olio/dataframe.py
index c0ba987..304dfcf 100644
--- a/resqpy/olio/dataframe.py
+++ b/resqpy/olio/dataframe.py
@@ -94,6 +94,7 @@ class DataFrame:
         self.title = title
         self.mesh = None  # only generated when needed for write_hdf5(), create_xml()
         self.pc = None  # property collection; only generated when needed for write_hdf5(), create_xml()
+        self.property_pending = False  # True when a realization property is to be created for the values in df
         self.column_lookup_uuid = column_lookup_uuid
         self.column_lookup = None  # string lookup table mapping column index (0 based) to column name
         self.uom_lookup_uuid = uom_lookup_uuid
@@ -139,10 +140,13 @@ class DataFrame:
                         realization = self.realization) is None, 'dataframe realization already exists'
                 self.df = df.copy()
                 assert len(self.df) == self.n_rows
-                assert len(self.df.columns) == self.n_rows
+                assert len(self.df.columns) == self.n_cols
+                assert list(self.df.columns) == self.column_lookup.get_list()
+                self.property_pending = True
         else:
             assert df is not None, 'no dataframe provided when instantiating DataFrame object'
             self.df = df.copy()
+            self.property_pending = (realization is not None)
             # todo: check data type of columns – restrict to numerical data
             self.n_rows = len(self.df)
             self.n_cols = len(self.df.columns)
@@ -170,10 +174,10 @@ class DataFrame:
     def column_uom(self, col_index):
         """Returns units of measure for the specified column, or Euc if no units present."""
 
-        if self.units_table is None:
-            return 'Euc'
         assert 0 <= col_index < self.n_cols, 'column index out of range'
-        return self.units_table.get_string(col_index)
+        if not self.uom_list:
+            return 'Euc'
+        return self.uom_list[col_index]
 
     def write_hdf5_and_create_xml(self):
         """Write dataframe data to hdf5 file and create xml for RESQML objects to represent dataframe."""
@@ -184,8 +188,8 @@ class DataFrame:
             self.column_lookup = rqp.StringLookup(self.model,
                                                   int_to_str_dict = dict(enumerate(self.df.columns)),
                                                   title = 'dataframe columns')
-            self.column_lookup_uuid = self.column_lookup.uuid
             sl_node = self.column_lookup.create_xml()
+            self.column_lookup_uuid = self.column_lookup.uuid
         else:
             sl_node = self.column_lookup.root
         if sl_node is not None:
@@ -195,8 +199,8 @@ class DataFrame:
             self.uom_lookup = rqp.StringLookup(self.model,
                                                int_to_str_dict = dict(enumerate(self.uom_list)),
                                                title = 'dataframe units')
-            self.uom_lookup_uuid = self.uom_lookup.uuid
             ul_node = self.uom_lookup.create_xml()
+            self.uom_lookup_uuid = self.uom_lookup.uuid
         elif self.uom_lookup is not None:
             ul_node = self.uom_lookup.root
         else:
@@ -240,25 +244,28 @@ class DataFrame:
                                      crs_uuid = crs_uuid)
             self.mesh.write_hdf5()
             mesh_root = self.mesh.create_xml(title = self.title)
-            rqet.create_metadata_xml(mesh_root, {'dataframe': 'true'})
-            if self.realization is not None:
-                self.pc = rqp.PropertyCollection()
-                self.pc.set_support(support = self.mesh)
-                dataframe_pk_uuid = self.model.uuid(obj_type = 'PropertyKind', title = 'dataframe')
-                if dataframe_pk_uuid is None:
-                    dataframe_pk = rqp.PropertyKind(self.model, title = 'dataframe', example_uom = 'Euc')
-                    dataframe_pk.create_xml()
-                    dataframe_pk_uuid = dataframe_pk.uuid
-                self.pc.add_cached_array_to_imported_list(np.array(self.df),
-                                                          'dataframe',
-                                                          self.title,
-                                                          uom = 'Euc',
-                                                          property_kind = 'dataframe',
-                                                          local_property_kind_uuid = dataframe_pk_uuid,
-                                                          realization = self.realization,
-                                                          indexable_element = 'nodes')
-                self.pc.write_hdf5_for_imported_list()
-                self.pc.create_xml_for_imported_list_and_add_parts_to_model()
+            extra_metadata = dict(self.extra_metadata) if self.extra_metadata else {}
+            extra_metadata['dataframe'] = 'true'
+            rqet.create_metadata_xml(mesh_root, extra_metadata)
+        if self.property_pending:
+            self.pc = rqp.PropertyCollection()
+            self.pc.set_support(support = self.mesh)
+            dataframe_pk_uuid = self.model.uuid(obj_type = 'PropertyKind', title = 'dataframe')
+            if dataframe_pk_uuid is None:
+                dataframe_pk = rqp.PropertyKind(self.model, title = 'dataframe', example_uom = 'Euc')
+                dataframe_pk.create_xml()
+                dataframe_pk_uuid = dataframe_pk.uuid
+            self.pc.add_cached_array_to_imported_list(np.array(self.df),
+                                                      'dataframe',
+                                                      self.title,
+                                                      uom = 'Euc',
+                                                      property_kind = 'dataframe',
+                                                      local_property_kind_uuid = dataframe_pk_uuid,
+                                                      realization = self.realization,
+                                                      indexable_element = 'nodes')
+            self.pc.write_hdf5_for_imported_list()
+            self.pc.create_xml_for_imported_list_and_add_parts_to_model()
+            self.property_pending = False
 
 
 class TimeTable(DataFrame):
diff --git a/resqpy/olio/relperm.py b/resqpy/olio/relperm.py
index f43a3dc..4a48f3c 100644
--- a/resqpy/olio/relperm.py
+++ b/resqpy/olio/relperm.py
@@ -245,10 +245,8 @@ class RelPerm(DataFrame):
 
     def write_hdf5_and_create_xml(self):
         """Write relative permeability table data to hdf5 file and create xml for dataframe objects."""
+        # note: the extra metadata indicating that this is a relative permeability table is written with the mesh
         super().write_hdf5_and_create_xml()
-        mesh_root = self.mesh.root
-        # create an xml of extra metadata to indicate that this is a relative permeability table
-        rqet.create_metadata_xml(mesh_root, self.extra_metadata)
 
 
 def text_to_relperm_dict(relperm_data, is_file = True):
-- 
2.43.0


From dd0fa910f81d2068e33c6d4208acfeefa999515f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:50 +0000
Subject: [PATCH 122/142] fix: relperm interpolation of capillary pressure and
 reading of text with comments

---
 resqpy/olio/relperm.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/resqpy/olio/relperm.py b/resqpy/olio/relperm.py
index 4a48f3c..5a4335d 100644
--- a/resqpy/olio/relperm.py
+++ b/resqpy/olio/relperm.py
@@ -180,10 +180,11 @@ class RelPerm(DataFrame):
            A simple linear interpolation is performed.
         """
         df = self.df.copy()
-        if kr_or_pc_col.capitalize() not in df.columns or kr_or_pc_col.capitalize() == df.columns[0]:
+        kr_or_pc_col = kr_or_pc_col.capitalize()
+        if kr_or_pc_col not in df.columns or kr_or_pc_col == df.columns[0]:
             raise ValueError('incorrect column name provided for interpolation')
-        if kr_or_pc_col == 'PC':
-            df = df[df['PC'].notnull()]
+        if kr_or_pc_col == 'Pc':
+            df = df[df['Pc'].notnull()]
         sat_col = df.columns[0]
         # ensure that the saturation values are monotonically increasing
         df = df.sort_values(by = sat_col)
@@ -213,7 +214,7 @@ class RelPerm(DataFrame):
         ascii_file = os.path.join(filepath, filename + '.dat')
         df.columns = map(str.upper, df.columns)
         if {'KRW', 'KRO'}.issubset(set(df.columns)):
-            if self.low_sal:
+            if str(self.low_sal).lower() == 'true':
                 table_name_keyword = 'WOTABLE (LOW_SAL)\n'
             else:
                 table_name_keyword = 'WOTABLE\n'
@@ -269,11 +270,8 @@ def text_to_relperm_dict(relperm_data, is_file = True):
             string_original = f.read()
     else:
         string_original = relperm_data
-    # split the string based on newlines and remove any comments or other escape characters
-    escapes = ''.join([chr(char) for char in range(1, 32)])
-    string_formatted = [x.strip(escapes).split(' ') for x in filter(None, string_original.split('\n')) if '!' not in x]
-    # remove all empty strings
-    data = [list(filter(None, x)) for x in string_formatted]
+    # split the string based on newlines, remove any comments and split each line into words, dropping blank lines
+    data = list(filter(None, [x.split('!')[0].split() for x in string_original.splitlines()]))
     # get indices of start of each new relperm table based on Nexus keywords
     table_start_positions = [
         i for i, l in enumerate(data) if len({'WOTABLE', 'GOTABLE', 'GWTABLE'}.intersection(set(l))) == 1
@@ -281,6 +279,7 @@ def text_to_relperm_dict(relperm_data, is_file = True):
     df_cols_dict = {
         'SW': 'Sw',
         'SG': 'Sg',
+        'SO': 'So',
         'KRW': 'Krw',
         'KRG': 'Krg',
         'KROW': 'Kro',
-- 
2.43.0


From 11ac749354d445440f74c36ff78bc0a6c9f3ec7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:50 +0000
Subject: [PATCH 123/142] fix: reading of wellspec files with comments after
 blank lines, nulls and selected columns

---
 resqpy/olio/wellspec_keywords.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/resqpy/olio/wellspec_keywords.py b/resqpy/olio/wellspec_keywords.py
index 7fccf8e..d21df11 100644
--- a/resqpy/olio/wellspec_keywords.py
+++ b/resqpy/olio/wellspec_keywords.py
@@ -474,7 +474,7 @@ def get_well_data(
     data: Dict[str, List] = {col: [] for col in df_col}
     all_null = True
     while True:
-        kf.skip_comments(file)
+        kf.skip_blank_lines_and_comments(file)
         if any(kf.specific_keyword_next(file, kw) for kw in end_of_table_keywords):
             break
         line = kf.strip_trailing_comment(file.readline())
@@ -519,12 +519,13 @@ def get_well_data(
     if not keep_null_columns:
         df.drop(columns = df.columns[df.isna().all()], inplace = True)
 
-    if not keep_duplicate_cells and any(df.duplicated(subset = ["IW", "JW", "L"])):
+    if not keep_duplicate_cells and all(col in df.columns for col in ["IW", "JW", "L"]) and any(
+            df.duplicated(subset = ["IW", "JW", "L"])):
         log.warning(f"There are duplicate cells for well {well_name}.")
         df.drop_duplicates(subset = ["IW", "JW", "L"], keep = "last", inplace = True)
 
     def stat_tranformation(row):
-        if row["STAT"] == "ON":
+        if str(row["STAT"]).upper() == "ON":
             return np.int8(1)
         else:
             return np.int8(0)
@@ -534,7 +535,7 @@ def get_well_data(
 
     int_col_dict = {}
     for col in ["IW", "JW", "L", "LAYER", "STAT"]:
-        if col in df.columns:
+        if col in df.columns and not df[col].isna().any():
             int_col_dict[col] = (np.int8 if col == "STAT" else np.int32)
     df = df.astype(int_col_dict)
 
-- 
2.43.0


From 1b482783897fa2a40049f23c3153deb20e8707be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:21 +0000
Subject: [PATCH 124/142] fix: overlap of boxes of trajectory and grid with
 rotated crs

---
 resqpy/grid_surface/_trajectory_intersects.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/resqpy/grid_surface/_trajectory_intersects.py b/resqpy/grid_surface/_trajectory_intersects.py
index 1acc992..158ae72 100644
--- a/resqpy/grid_surface/_trajectory_intersects.py
+++ b/resqpy/grid_surface/_trajectory_intersects.py
@@ -410,17 +410,17 @@ def trajectory_grid_overlap(trajectory, grid, lazy = False):
        a return value of False guarantees that the trajectory does not intersect the grid
     """
 
-    traj_box = np.empty((2, 3))
-    traj_box[0] = np.amin(trajectory.control_points, axis = 0)
-    traj_box[1] = np.amax(trajectory.control_points, axis = 0)
-    grid_box = grid.xyz_box(lazy = lazy, local = True)
+    traj_xyz = trajectory.control_points
     if not bu.matching_uuids(trajectory.crs_uuid, grid.crs_uuid):
         t_crs = rqc.Crs(trajectory.model, uuid = trajectory.crs_uuid)
         g_crs = rqc.Crs(grid.model, uuid = grid.crs_uuid)
-        t_crs.convert_array_to(g_crs, traj_box)
-        t_box = traj_box.copy()
-        traj_box[0] = np.min(t_box, axis = 0)
-        traj_box[1] = np.max(t_box, axis = 0)
+        # note: box must be found after conversion, as axes of the two crs might not be aligned
+        traj_xyz = traj_xyz.copy()
+        t_crs.convert_array_to(g_crs, traj_xyz)
+    traj_box = np.empty((2, 3))
+    traj_box[0] = np.amin(traj_xyz, axis = 0)
+    traj_box[1] = np.amax(traj_xyz, axis = 0)
+    grid_box = grid.xyz_box(lazy = lazy, local = True)
     log.debug(f'overlap check: traj: {traj_box}; grid{grid_box}; overlap: {bx.boxes_overlap(traj_box, grid_box)}')
     return bx.boxes_overlap(traj_box, grid_box)
 
-- 
2.43.0


From c93c4876a2567d23ce8cbae4ed963646143022ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:01 +0000
Subject: [PATCH 125/142] fix: options of
 generate_surface_for_blocked_well_cells

---
 resqpy/grid_surface/_blocked_well_populate.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resqpy/grid_surface/_blocked_well_populate.py b/resqpy/grid_surface/_blocked_well_populate.py
index a439630..e42dcf3 100644
--- a/resqpy/grid_surface/_blocked_well_populate.py
+++ b/resqpy/grid_surface/_blocked_well_populate.py
@@ -291,11 +291,11 @@ def generate_surface_for_blocked_well_cells(blocked_well,
     for cell in range(cell_count):
         grid = grid_list[cell]
         cell_kji0 = cells_kji0[cell]
-        if active_only and grid.inactive is not None and grid.inactive[cell_kji0]:
+        if active_only and grid.inactive is not None and grid.inactive[tuple(cell_kji0)]:
             continue
         if cell_kji0[0] < min_k0 or (max_k0 is not None and cell_kji0[0] > max_k0):
             continue
-        if depth_limit is not None and grid.centre_point(cell_kji0) > depth_limit:
+        if depth_limit is not None and grid.centre_point(cell_kji0)[2] > depth_limit:
             continue
         cp = grid.corner_points(cell_kji0)
         if combined:
@@ -311,7 +311,7 @@ def generate_surface_for_blocked_well_cells(blocked_well,
 
     if combined:
         cs = rqs.Surface(blocked_well.model, crs_uuid = grid.crs_uuid)
-        cs.set_to_multi_cell_faces_from_corner_points(composite_cp[:cell_p])
+        cs.set_to_multi_cell_faces_from_corner_points(composite_cp[:cell_p], quad_triangles = quad_triangles)
         return cs
 
     return surface_list
-- 
2.43.0


From 5e095e13f1b6bb54f37c13868023b918a380da4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:58 +0000
Subject: [PATCH 126/142] fix: extract_box_for_well comparing local trajectory
 with global grid box

---
 resqpy/derived_model/_extract_box_for_well.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/derived_model/_extract_box_for_well.py b/resqpy/derived_model/_extract_box_for_well.py
index 573cb75..51185ff 100644
--- a/resqpy/derived_model/_extract_box_for_well.py
+++ b/resqpy/derived_model/_extract_box_for_well.py
@@ -146,7 +146,7 @@ def extract_box_for_well(epc_file = None,
         traj_box = np.empty((2, 3))
         traj_box[0] = np.amin(trajectory.control_points, axis = 0)
         traj_box[1] = np.amax(trajectory.control_points, axis = 0)
-        grid_box = source_grid.xyz_box(lazy = False)
+        grid_box = source_grid.xyz_box(lazy = False, local = True)
         if not bx.boxes_overlap(traj_box, grid_box):
             log.error('no overlap of xyz boxes for trajectory and grid for trajectory uuid: ' + str(trajectory.uuid))
             return None, None
-- 
2.43.0


From 8058565e2fde80640154e17750fd925df9816c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:58 +0000
Subject: [PATCH 127/142] fix: extract_box_for_well with column_xy

---
 resqpy/derived_model/_extract_box_for_well.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/resqpy/derived_model/_extract_box_for_well.py b/resqpy/derived_model/_extract_box_for_well.py
index 51185ff..39fa9ba 100644
--- a/resqpy/derived_model/_extract_box_for_well.py
+++ b/resqpy/derived_model/_extract_box_for_well.py
@@ -112,7 +112,8 @@ def extract_box_for_well(epc_file = None,
     if max_k0 is None:
         max_k0 = source_grid.nk - 1
     assert 0 <= min_k0 <= max_k0 < source_grid.nk
-    assert trajectory_uuid is not None or blocked_well_uuid is not None or column_ji0 is not None
+    assert (trajectory_uuid is not None or blocked_well_uuid is not None or column_ji0 is not None or
+            column_xy is not None)
     if radius is None:
         radius = 0.0  # cells directly penetrated through a k face will still be included
     assert radius >= 0.0
@@ -162,6 +163,8 @@ def extract_box_for_well(epc_file = None,
         bw_cells = blocked_well.cell_indices_for_grid_uuid(source_grid.uuid)
     else:
         column_ji0, well_name = _check_column(source_grid, column_ji0, column_xy, well_name)
+        if column_ji0 is None:
+            return None, None
 
     # create cell mask
     inclusion_mask, outer_inactive_mask = _build_cell_masks(source_grid, centres, min_k0, max_k0, trajectory,
@@ -356,7 +359,7 @@ def _check_column(source_grid, column_ji0, column_xy, well_name):
         column_ji0 = source_grid.find_cell_for_point_xy(column_xy[0], column_xy[1])
         if column_ji0[0] is None or column_ji0[1] is None:
             log.error('no column found for x, y: ' + str(column_xy[0]) + ', ' + str(column_xy[1]))
-        return None, None
+            return None, None
     assert len(column_ji0) == 2
     assert 0 <= column_ji0[0] < source_grid.nj and 0 <= column_ji0[1] < source_grid.ni
     if not well_name:
-- 
2.43.0


From 8024e8382b3fcb1678d42bea688baf21ed290801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:58 +0000
Subject: [PATCH 128/142] fix: fault_throw_scaling applying default factor to
 faults with a factor of one

---
 resqpy/derived_model/_fault_throw_scaling.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/resqpy/derived_model/_fault_throw_scaling.py b/resqpy/derived_model/_fault_throw_scaling.py
index 016aec7..8aed7a6 100644
--- a/resqpy/derived_model/_fault_throw_scaling.py
+++ b/resqpy/derived_model/_fault_throw_scaling.py
@@ -273,8 +273,6 @@ def _set_offsets_based_on_scaling_dict(grid, connection_set, scaling_dict, offse
         if fault_name not in scaling_dict:
             continue  # no scaling for this fault
         fault_scaling = scaling_dict[fault_name]
-        if fault_scaling == 1.0:
-            continue
         log.info('scaling throw on fault ' + fault_name + ' by factor of: {0:.4f}'.format(fault_scaling))
         kelp_j, kelp_i = connection_set.simplified_sets_of_kelp_for_feature_index(fault_index)
         p_list = []  # list of adjusted pillars
-- 
2.43.0


From 04f8931fcdc8ea1e504b48a5593a1e0455549449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:58 +0000
Subject: [PATCH 129/142] fix: features missing from new epc when connection
 sets inherited with scaled throws

---
 resqpy/derived_model/_fault_throw_scaling.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/resqpy/derived_model/_fault_throw_scaling.py b/resqpy/derived_model/_fault_throw_scaling.py
index 8aed7a6..730901f 100644
--- a/resqpy/derived_model/_fault_throw_scaling.py
+++ b/resqpy/derived_model/_fault_throw_scaling.py
@@ -368,6 +368,10 @@ def _inherit_gcs_list(epc_file, gcs_list, source_grid, grid):
         assert len(grid_list_modifications)
         for gi in grid_list_modifications:
             gcs.grid_list[gi] = grid
+        if not os.path.exists(gcs.model.epc_file) or not os.path.samefile(gcs.model.epc_file, epc_file):
+            # named faults etc. also needed in the other model
+            for _, feature_uuid, _ in gcs.feature_list:
+                gcs_inheritance_model.copy_uuid_from_other_model(gcs.model, feature_uuid)
         gcs.model = gcs_inheritance_model
         gcs.write_hdf5()
         gcs.create_xml(title = gcs_title)
-- 
2.43.0


From f33e655af4fa9c0ced0ab15d3d837e8207de123f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:12 +0000
Subject: [PATCH 130/142] fix: gather_ensemble matching grids by title

---
 resqpy/derived_model/_gather_ensemble.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/derived_model/_gather_ensemble.py b/resqpy/derived_model/_gather_ensemble.py
index 0910a1f..455f74e 100644
--- a/resqpy/derived_model/_gather_ensemble.py
+++ b/resqpy/derived_model/_gather_ensemble.py
@@ -89,7 +89,7 @@ def gather_ensemble(case_epc_list,
                     if grid_extent in host_grid_shapes:
                         if title_match_required:
                             case_grid_title = rqet.citation_title_for_node(grid_root)
-                            for host_grid_index in len(host_grid_uuids):
+                            for host_grid_index in range(len(host_grid_uuids)):
                                 if grid_extent == host_grid_shapes[
                                         host_grid_index] and case_grid_title == host_grid_titles[host_grid_index]:
                                     host_index = host_grid_index
-- 
2.43.0


From 1c2f05353eab832377f4e6ca3015e36943b804b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:13 +0000
Subject: [PATCH 131/142] fix: add_one_blocked_well_property ignoring
 new_epc_file

---
 resqpy/derived_model/_add_one_blocked_well_property.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/resqpy/derived_model/_add_one_blocked_well_property.py b/resqpy/derived_model/_add_one_blocked_well_property.py
index 2826713..03a2c68 100644
--- a/resqpy/derived_model/_add_one_blocked_well_property.py
+++ b/resqpy/derived_model/_add_one_blocked_well_property.py
@@ -70,9 +70,16 @@ def add_one_blocked_well_property(epc_file,
         (os.path.exists(new_epc_file) and os.path.exists(epc_file) and os.path.samefile(new_epc_file, epc_file))):
         new_epc_file = None
 
-    # open up model and establish grid object
+    # open up model and establish blocked well object
     model = rq.Model(epc_file)
 
+    if new_epc_file:  # copy blocked well and other objects needed by the property, with dependencies
+        source_model = model
+        model = rq.new_model(new_epc_file)
+        for uuid in (blocked_well_uuid, time_series_uuid, string_lookup_uuid, local_property_kind_uuid):
+            if uuid is not None:
+                model.copy_uuid_from_other_model(source_model, uuid)
+
     blocked_well = rqw.BlockedWell(model, uuid = blocked_well_uuid)
     assert blocked_well is not None, f'no blocked well object found with uuid {blocked_well_uuid}'
 
-- 
2.43.0


From 91d1f05839cf4a5705bc0790415a0454c8ade141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:39 +0000
Subject: [PATCH 132/142] fix: active cell property for time of grid geometry

---
 resqpy/grid/_extract_functions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resqpy/grid/_extract_functions.py b/resqpy/grid/_extract_functions.py
index 16d490f..4394fcd 100644
--- a/resqpy/grid/_extract_functions.py
+++ b/resqpy/grid/_extract_functions.py
@@ -524,6 +524,7 @@ def extract_inactive_mask(grid, check_pinchout = False):
             active_gpc = rprop.selective_version_of_collection(active_gpc,
                                                                time_index = grid.time_index,
                                                                time_series_uuid = grid.time_series_uuid)
+            active_parts = active_gpc.parts()
         else:
             active_parts = []
             for part in active_gpc.parts():
-- 
2.43.0


From 21e348407d76f596d5769f6b2135c3aafbd966ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:09 +0000
Subject: [PATCH 133/142] fix: bounding box and pinchouts left stale when
 points set from property

---
 resqpy/grid/_points_functions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resqpy/grid/_points_functions.py b/resqpy/grid/_points_functions.py
index 7d76d88..1f54166 100644
--- a/resqpy/grid/_points_functions.py
+++ b/resqpy/grid/_points_functions.py
@@ -105,6 +105,8 @@ def set_cached_points_from_property(grid,
     # invalidate anything cached that is derived from geometry
     grid.geometry_defined_for_all_pillars_cached = None
     grid.geometry_defined_for_all_cells_cached = None
+    grid.xyz_box_cached = None
+    grid.pinchout = None
     for attr in ('array_unsplit_points', 'array_corner_points', 'array_centre_point', 'array_thickness', 'array_volume',
                  'array_half_cell_t', 'array_k_transmissibility', 'array_j_transmissibility',
                  'array_i_transmissibility', 'fgcs', 'array_fgcs_transmissibility', 'pgcs',
-- 
2.43.0


From 7a81a44e0994a619429743e488163694d0a67021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:10 +0000
Subject: [PATCH 134/142] fix: cached triangles left stale when patches of
 surface set from list

---
 resqpy/surface/_surface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/surface/_surface.py b/resqpy/surface/_surface.py
index 03022d2..b1e099d 100644
--- a/resqpy/surface/_surface.py
+++ b/resqpy/surface/_surface.py
@@ -562,7 +562,7 @@ class Surface(rqsb.BaseSurface):
         """Populate this (empty) Surface object from a list of paits: array of triangle corner indices, array of points."""
 
         self.patch_list = []
-        self.trianges = None
+        self.triangles = None
         self.points = None
         for patch, entry in enumerate(triangles_and_points_list):
             assert len(entry) == 2, 'expecting pair of arrays (triangles, points) for each patch'
-- 
2.43.0


From 138eee86a5e148d56743f527cc245acc2aa9f726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:10 +0000
Subject: [PATCH 135/142] fix: modified transmissibilities kept as unmodified

---
 resqpy/grid/_transmissibility.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resqpy/grid/_transmissibility.py b/resqpy/grid/_transmissibility.py
index b38c405..9fd8b4b 100644
--- a/resqpy/grid/_transmissibility.py
+++ b/resqpy/grid/_transmissibility.py
@@ -66,7 +66,7 @@ def transmissibility(grid, tolerance = 1.0e-6, use_tr_properties = True, realiza
 
     k_tr = j_tr = i_tr = None
 
-    if realization is None:
+    if realization is None and modifier_mode is None:
         if hasattr(grid, 'array_k_transmissibility') and grid.array_k_transmissibility is not None:
             k_tr = grid.array_k_transmissibility
         if hasattr(grid, 'array_j_transmissibility') and grid.array_j_transmissibility is not None:
@@ -285,7 +285,7 @@ def __set_j_transmissibility(grid, half_t, j_tr, modifier_mode, pc, realization,
             internal_zero_mask = np.logical_or(internal_zero_mask, tr_abs <= 0.0)
             tr_abs_r = np.where(np.logical_or(np.isinf(tr_abs), np.isnan(tr_abs)), 0.0, 1.0 / tr_abs)
     j_tr[:, 1:-1, :] = np.where(internal_zero_mask, 0.0, tr_mult / ((1.0 / slice_a) + tr_abs_r + (1.0 / slice_b)))
-    if realization is None:
+    if realization is None and modifier_mode is None:
         grid.array_j_transmissibility = j_tr
     return j_tr
 
@@ -353,7 +353,7 @@ def __set_k_transmissibility(grid, half_t, k_tr, modifier_mode, pc, realization,
             internal_zero_mask = np.logical_or(internal_zero_mask, tr_abs <= 0.0)
             tr_abs_r = np.where(np.logical_or(np.isinf(tr_abs), np.isnan(tr_abs)), 0.0, 1.0 / tr_abs)
     k_tr[1:-1, :, :] = np.where(internal_zero_mask, 0.0, tr_mult / ((1.0 / slice_a) + tr_abs_r + (1.0 / slice_b)))
-    if realization is None:
+    if realization is None and modifier_mode is None:
         grid.array_k_transmissibility = k_tr
     return k_tr
 
-- 
2.43.0


From 1a79588aef631e8072c84cfb9c0a0c0e96a85910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:10 +0000
Subject: [PATCH 136/142] fix: internal J faces dropped or external kept when
 tracing in I cross section

---
 resqpy/grid/_face_functions.py | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/resqpy/grid/_face_functions.py b/resqpy/grid/_face_functions.py
index f854621..8e7976e 100644
--- a/resqpy/grid/_face_functions.py
+++ b/resqpy/grid/_face_functions.py
@@ -288,7 +288,7 @@ def __i_greater_than_j(dj, full_pillar_list, grid, here, i_kelp_list, i_sign, j_
             if stepped_divergence < divergence:
                 here[:] = side_step
                 __add_to_kelp_list(grid.extent_kji, i_kelp_list, kelp_axes[1],
-                                   (min(here[0], here[0] - j_sign), here[1] - 1))
+                                   (min(here[0], here[0] - j_sign), here[1] - 1), 1)
                 full_pillar_list.append(tuple(here))
 
 
@@ -297,7 +297,7 @@ def __j_greater_than_i(di, full_pillar_list, grid, here, i_kelp_list, i_sign, j_
     j = here[0]
     if j != ji_1[0]:
         jp = j + j_sign
-        __add_to_kelp_list(grid.extent_kji, i_kelp_list, kelp_axes[1], (min(j, jp), here[1] - 1))
+        __add_to_kelp_list(grid.extent_kji, i_kelp_list, kelp_axes[1], (min(j, jp), here[1] - 1), 1)
         here[0] = jp
         full_pillar_list.append(tuple(here))
     if di != 0:
@@ -362,20 +362,15 @@ def face_centres_kji_01(grid, cell_kji0, points_root = None, cache_resqml_array
     return result
 
 
-def __add_to_kelp_list(extent_kji, kelp_list, face_axis, ji):
+def __add_to_kelp_list(extent_kji, kelp_list, face_axis, ji, ji_axis = None):
     if isinstance(face_axis, bool):
         face_axis = 'J' if face_axis else 'I'
     # ignore external faces
-    if face_axis == 'J':
-        if ji[0] < 0 or ji[0] >= extent_kji[1] - 1:
-            return
-    elif face_axis == 'I':
-        if ji[1] < 0 or ji[1] >= extent_kji[2] - 1:
-            return
-    else:  # ji is actually kj or ki
-        assert face_axis == 'K'
-        if ji[0] < 0 or ji[0] >= extent_kji[0] - 1:
-            return
+    if ji_axis is None:
+        ji_axis = 1 if face_axis == 'I' else 0
+    # note: ji is actually kj or ki when working in cross section, in which case the J axis can be second in the pair
+    if ji[ji_axis] < 0 or ji[ji_axis] >= extent_kji['KJI'.index(face_axis)] - 1:
+        return
     pair = ji
     if pair in kelp_list:
         return  # avoid duplication
-- 
2.43.0


From 444163c59a2d0b49ced61a001993c12e3adf00d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:10 +0000
Subject: [PATCH 137/142] fix: face set names of faults found earlier

---
 resqpy/grid/_faults.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/grid/_faults.py b/resqpy/grid/_faults.py
index 33df029..0c50436 100644
--- a/resqpy/grid/_faults.py
+++ b/resqpy/grid/_faults.py
@@ -25,7 +25,7 @@ def find_faults(grid, set_face_sets = False, create_organizing_objects_where_nee
     if hasattr(grid, 'fault_dict') and grid.fault_dict is not None and len(grid.fault_dict.keys()) > 0:
         if set_face_sets:
             for f, (j_list, i_list) in grid.fault_dict.items():
-                fault_name = f'fault_{f}' if isinstance(f, int) else f
+                fault_name = f if isinstance(f, str) else f'fault_{f}'
                 grid.face_set_dict[fault_name] = (j_list, i_list, 'K')
             grid.set_face_set_gcs_list_from_dict(grid.face_set_dict, create_organizing_objects_where_needed)
         return None
-- 
2.43.0


From eb3f49d628417b08512d34dbd5ad5d5d691a2d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:11 +0000
Subject: [PATCH 138/142] fix: first fault lost where every column face is
 faulted

---
 resqpy/grid/_faults.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resqpy/grid/_faults.py b/resqpy/grid/_faults.py
index 0c50436..d47cd9e 100644
--- a/resqpy/grid/_faults.py
+++ b/resqpy/grid/_faults.py
@@ -79,7 +79,8 @@ def find_faults(grid, set_face_sets = False, create_organizing_objects_where_nee
                     kelp_j = np.where(kelp_j == i_id, j_id, kelp_j)
 
     fault_id_list = np.unique(np.concatenate(
-        (np.unique(kelp_i.flatten()), np.unique(kelp_j.flatten()))))[1:]  # discard zero from list
+        (np.unique(kelp_i.flatten()), np.unique(kelp_j.flatten()))))
+    fault_id_list = fault_id_list[fault_id_list > 0]  # discard zero from list
     log.info('number of distinct faults: ' + str(fault_id_list.size))
     # for each fault id, make pair of tuples of kelp locations
     grid.fault_dict = {}  # maps fault_id to pair (j faces, i faces) of array of [j, i] kelp indices for that fault_id
-- 
2.43.0


From d23aa81a2dd1d055a19789253f9fa099089e5483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:37 +0000
Subject: [PATCH 139/142] fix: decoarsening gave skipped properties the values
 of another

---
 resqpy/property/grid_property_collection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resqpy/property/grid_property_collection.py b/resqpy/property/grid_property_collection.py
index 97412bf..37af855 100644
--- a/resqpy/property/grid_property_collection.py
+++ b/resqpy/property/grid_property_collection.py
@@ -583,6 +583,7 @@ class GridPropertyCollection(rqp.PropertyCollection):
                 log.warning(
                     f'decoarsening of transmissibility {keyword} skipped due to simple methods not yielding correct values'
                 )
+                continue
             elif kind in decoarsen_length_kinds:
                 facet_dir = import_item[12] if import_item[11] == 'direction' else None
                 if kind in ['thickness', 'permeability thickness'] or (facet_dir == 'K'):
@@ -593,6 +594,7 @@ class GridPropertyCollection(rqp.PropertyCollection):
                     redistributed = coarsened[decoarsen_array] / i_share
                 else:
                     log.warning(f'decoarsening of length property {keyword} skipped as direction not established')
+                    continue
             else:
                 redistributed = coarsened[decoarsen_array]
             self.__dict__[import_item[3]] = redistributed.reshape(self.grid.extent_kji)
-- 
2.43.0


From 4ec88a3506547f56e53b30bb6587b33931f372e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:37 +0000
Subject: [PATCH 140/142] fix: decoarsening failed for a grid without an
 inactive mask

---
 resqpy/property/grid_property_collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/property/grid_property_collection.py b/resqpy/property/grid_property_collection.py
index 37af855..00de193 100644
--- a/resqpy/property/grid_property_collection.py
+++ b/resqpy/property/grid_property_collection.py
@@ -603,7 +603,7 @@ class GridPropertyCollection(rqp.PropertyCollection):
         if property_count:
             log.debug(f'{property_count} properties decoarsened')
 
-        if reactivate and hasattr(self.grid, 'inactive'):
+        if reactivate and getattr(self.grid, 'inactive', None) is not None:
             log.debug('reactivating cells inactive due to coarsening')
             pre_count = np.count_nonzero(self.grid.inactive)
             self.grid.inactive = self.grid.inactive.flatten()[decoarsen_array].reshape(self.grid.extent_kji)
-- 
2.43.0


From 6c59da1dd33456a2a0dfd416d09ce0b020505ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:37 +0000
Subject: [PATCH 141/142] fix: unit conversion of cached volumes changed arrays
 already returned

---
 resqpy/grid/_cell_properties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/grid/_cell_properties.py b/resqpy/grid/_cell_properties.py
index 8d99ba5..956b918 100644
--- a/resqpy/grid/_cell_properties.py
+++ b/resqpy/grid/_cell_properties.py
@@ -190,7 +190,7 @@ def volume(grid,
 
     if hasattr(grid, 'array_volume'):
         if required_uom != grid.array_volume_uom:
-            grid.array_volume = wam.convert_volumes(grid.array_volume, grid.array_volume_uom, required_uom)
+            grid.array_volume = wam.convert_volumes(grid.array_volume.copy(), grid.array_volume_uom, required_uom)
             grid.array_volume_uom = required_uom
         if cell_kji0 is None:
             return grid.array_volume
-- 
2.43.0


From 34aaf4aae1b8f2eaaf0b8b47bc2326e5722036e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:37 +0000
Subject: [PATCH 142/142] fix: well without perforations in grid prevented
 loading of wellspec

---
 resqpy/well/_blocked_well.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resqpy/well/_blocked_well.py b/resqpy/well/_blocked_well.py
index 33f7ee6..8a6023c 100644
--- a/resqpy/well/_blocked_well.py
+++ b/resqpy/well/_blocked_well.py
@@ -855,6 +855,8 @@ class BlockedWell(BaseResqpy):
         BlockedWell.__check_number_of_blocked_well_intervals(blocked_cells_kji0 = blocked_cells_kji0,
                                                              well_name = well_name,
                                                              grid_name = grid_name_to_check)
+        if blocked_count == 0:
+            return None
 
         self.node_count = len(trajectory_mds)
         self.node_mds = np.array(trajectory_mds)
-- 
2.43.0

