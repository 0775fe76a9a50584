From 7a3764d6f27f0efc9264a4eaabbdf19ca67eb385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:20 +0000
Subject: [PATCH 01/31] fix: approximation grid of one-dimensional multilinear
 interpolators

mlinspace passed an array as the number of points to numpy.linspace, which
raises a TypeError, so .grid was unusable for one-dimensional grids.
---
 geotiepoints/multilinear.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/geotiepoints/multilinear.py b/geotiepoints/multilinear.py
index aedad4e..4db35e8 100644
--- a/geotiepoints/multilinear.py
+++ b/geotiepoints/multilinear.py
@@ -7,8 +7,7 @@ from geotiepoints.multilinear_cython import multilinear_interpolation
 
 def mlinspace(smin, smax, orders):
     if len(orders) == 1:
-        res = np.atleast_2d(
-            np.linspace(np.array(smin), np.array(smax), np.array(orders)))
+        res = np.atleast_2d(np.linspace(smin[0], smax[0], orders[0]))
         return res.copy()  # workaround for strange bug
     else:
         meshes = np.meshgrid(
-- 
2.43.0


From 9f1527306ead4598fdb24fd3890c093595f379c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:03 +0000
Subject: [PATCH 02/31] fix: longitude 0 or NaN on the antimeridian and at the
 poles

The longitude was computed as arccos(x / r) * sign(y), which is 0 instead of
180 where y is exactly 0 and x negative, NaN where x and y are both 0, and
loses half of the significant digits close to longitudes 0 and 180.
---
 geotiepoints/geointerpolator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotiepoints/geointerpolator.py b/geotiepoints/geointerpolator.py
index 356e780..b2eb3e2 100644
--- a/geotiepoints/geointerpolator.py
+++ b/geotiepoints/geointerpolator.py
@@ -61,7 +61,7 @@ def lonlat2xyz(lons, lats, radius=EARTH_RADIUS):
 
 def xyz2lonlat(x__, y__, z__, radius=EARTH_RADIUS, thr=0.8, low_lat_z=True):
     """Get longitudes from cartesian coordinates."""
-    lons = np.rad2deg(np.arccos(x__ / np.sqrt(x__ ** 2 + y__ ** 2))) * np.sign(y__)
+    lons = np.rad2deg(np.arctan2(y__, x__))
     lats = np.sign(z__) * (90 - np.rad2deg(np.arcsin(np.sqrt(x__ ** 2 + y__ ** 2) / radius)))
     if low_lat_z:
         # if we are at low latitudes - small z, then get the
-- 
2.43.0


From 4cf83745d69fd144cda6b7f4fa26124341382c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:03 +0000
Subject: [PATCH 03/31] fix: NaN latitudes from rounding at the equator and the
 poles

With low_lat_z=False (or a small threshold) the distance from the rotation
axis of points on the equator, and with a threshold above 1 the height of the
poles, can exceed the radius by a rounding error, which made the latitude NaN.
---
 geotiepoints/geointerpolator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/geotiepoints/geointerpolator.py b/geotiepoints/geointerpolator.py
index b2eb3e2..7306180 100644
--- a/geotiepoints/geointerpolator.py
+++ b/geotiepoints/geointerpolator.py
@@ -62,12 +62,14 @@ def lonlat2xyz(lons, lats, radius=EARTH_RADIUS):
 def xyz2lonlat(x__, y__, z__, radius=EARTH_RADIUS, thr=0.8, low_lat_z=True):
     """Get longitudes from cartesian coordinates."""
     lons = np.rad2deg(np.arctan2(y__, x__))
-    lats = np.sign(z__) * (90 - np.rad2deg(np.arcsin(np.sqrt(x__ ** 2 + y__ ** 2) / radius)))
+    # rounding may push the normalized coordinates of points at the equator or at the poles beyond 1
+    normalized_r = np.minimum(np.sqrt(x__ ** 2 + y__ ** 2) / radius, 1)
+    lats = np.sign(z__) * (90 - np.rad2deg(np.arcsin(normalized_r)))
     if low_lat_z:
         # if we are at low latitudes - small z, then get the
         # latitudes only from z. If we are at high latitudes (close to the poles)
         # then derive the latitude using x and y:
-        normalized_z = z__ / radius
+        normalized_z = np.clip(z__ / radius, -1, 1)
         lat_mask_cond = abs(normalized_z) < thr
         lat_z_only = 90 - np.rad2deg(np.arccos(normalized_z))
         lats = np.where(lat_mask_cond, lat_z_only, lats)
-- 
2.43.0


From 029a00a0218d35524ed4337df1fd2d87df37c5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:03 +0000
Subject: [PATCH 04/31] fix: VII longitude 0 or NaN on the antimeridian and at
 the poles

The longitude was computed as arccos(x / r) * sign(y), which is 0 instead of
180 where y is exactly 0 and x negative, NaN where x and y are both 0, and
loses half of the significant digits close to longitudes 0 and 180.
---
 geotiepoints/viiinterpolator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotiepoints/viiinterpolator.py b/geotiepoints/viiinterpolator.py
index 6b4add8..421a29f 100644
--- a/geotiepoints/viiinterpolator.py
+++ b/geotiepoints/viiinterpolator.py
@@ -168,7 +168,7 @@ def _xyz2lonlat(x_coords, y_coords, z_coords, z_threshold_use_xy=0.8):
     """
     r = np.sqrt(x_coords ** 2 + y_coords ** 2)
     thr_z = z_threshold_use_xy * MEAN_EARTH_RADIUS
-    lons = np.rad2deg(np.arccos(x_coords / r)) * np.sign(y_coords)
+    lons = np.rad2deg(np.arctan2(y_coords, x_coords))
     # Compute latitude from z at low z and from x and y at high z
     lats = xr.where(
         np.logical_and(np.less(z_coords, thr_z), np.greater(z_coords, -thr_z)),
-- 
2.43.0


From 2f1259d8f9a8537b86236e0b4007700d9e2d693f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:03 +0000
Subject: [PATCH 05/31] fix: NaN VII latitudes from rounding at the equator and
 the poles

Depending on z_threshold_use_xy the normalized coordinates of points on the
equator or at the poles can exceed 1 by a rounding error, which made the
latitude NaN.
---
 geotiepoints/viiinterpolator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geotiepoints/viiinterpolator.py b/geotiepoints/viiinterpolator.py
index 421a29f..37c6517 100644
--- a/geotiepoints/viiinterpolator.py
+++ b/geotiepoints/viiinterpolator.py
@@ -172,7 +172,7 @@ def _xyz2lonlat(x_coords, y_coords, z_coords, z_threshold_use_xy=0.8):
     # Compute latitude from z at low z and from x and y at high z
     lats = xr.where(
         np.logical_and(np.less(z_coords, thr_z), np.greater(z_coords, -thr_z)),
-        90. - np.rad2deg(np.arccos(z_coords / MEAN_EARTH_RADIUS)),
-        np.sign(z_coords) * (90. - np.rad2deg(np.arcsin(r / MEAN_EARTH_RADIUS)))
+        90. - np.rad2deg(np.arccos(np.clip(z_coords / MEAN_EARTH_RADIUS, -1, 1))),
+        np.sign(z_coords) * (90. - np.rad2deg(np.arcsin(np.minimum(r / MEAN_EARTH_RADIUS, 1))))
     )
     return lons, lats
-- 
2.43.0


From f5566b1cef3affcade07003be8b8711eb28ad1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:16 +0000
Subject: [PATCH 06/31] fix: MODIS longitude 0 or NaN on the antimeridian and
 at the poles

The longitude was computed as acos(x / r) * sign(y), which is 0 instead of 180
where y is exactly 0 and x negative, NaN where x and y are both 0, and loses
half of the significant digits close to longitudes 0 and 180.
---
 geotiepoints/_modis_utils.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geotiepoints/_modis_utils.pyx b/geotiepoints/_modis_utils.pyx
index b290cb0..1d1b02a 100644
--- a/geotiepoints/_modis_utils.pyx
+++ b/geotiepoints/_modis_utils.pyx
@@ -3,7 +3,7 @@ from functools import wraps
 
 cimport cython
 cimport numpy as np
-from libc.math cimport asin, sin, cos, sqrt, acos, M_PI
+from libc.math cimport asin, sin, cos, sqrt, acos, atan2, M_PI
 import numpy as np
 
 np.import_array()
@@ -55,7 +55,7 @@ cdef void xyz2lonlat(
             x = <np.float64_t>xyz[i, j, 0]
             y = <np.float64_t>xyz[i, j, 1]
             z = <np.float64_t>xyz[i, j, 2]
-            lons[i, j] = rad2deg(acos(x / sqrt(x ** 2 + y ** 2))) * _sign(y)
+            lons[i, j] = rad2deg(atan2(y, x))
             # if we are at low latitudes - small z, then get the
             # latitudes only from z. If we are at high latitudes (close to the poles)
             # then derive the latitude using x and y:
-- 
2.43.0


From 61c0afb400d89805b929164a58537395acd3522f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:29 +0000
Subject: [PATCH 07/31] fix: row border filling when rows are indexed in fine
 pixels

_fill_row_borders compared the tie row positions with fine row numbers divided
by the subsampling factor, which is only right for positions in units of tie
rows. generic_modis5kmto1km and any grid indexed in fine pixels failed or used
the tie rows of another chunk. Compare with the fine row positions instead.
---
 geotiepoints/interpolator.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/geotiepoints/interpolator.py b/geotiepoints/interpolator.py
index c35fbbf..606069b 100644
--- a/geotiepoints/interpolator.py
+++ b/geotiepoints/interpolator.py
@@ -162,7 +162,6 @@ class Interpolator:
         """Add the first and last rows to the data by extrapolation."""
         lines = len(self.hrow_indices)
         chunk_size = self.chunk_size or lines
-        factor = len(self.hrow_indices) / len(self.row_indices)
 
         tmp_data = []
         for _num in range(len(self.tie_data)):
@@ -170,8 +169,14 @@ class Interpolator:
         row_indices = []
 
         for index in range(0, lines, chunk_size):
-            indices = np.logical_and(self.row_indices >= index / factor,
-                                     self.row_indices < (index + chunk_size) / factor)
+            first_index = self.hrow_indices[index]
+            last_index = self.hrow_indices[index + chunk_size - 1]
+            # the tie rows of this chunk, in the same units as the fine rows
+            indices = np.ones(len(self.row_indices), dtype=bool)
+            if index > 0:
+                indices &= self.row_indices >= first_index
+            if index + chunk_size < lines:
+                indices &= self.row_indices < self.hrow_indices[index + chunk_size]
             ties = np.argwhere(indices).squeeze()
             tiepos = self.row_indices[indices].squeeze()
 
@@ -180,14 +185,13 @@ class Interpolator:
                 if len(to_extrapolate) > 0:
                     extrapolated = self._extrapolate_rows(to_extrapolate,
                                                           tiepos,
-                                                          self.hrow_indices[
-                                                              index],
-                                                          self.hrow_indices[index + chunk_size - 1])
+                                                          first_index,
+                                                          last_index)
                     tmp_data[num].append(extrapolated)
 
-            row_indices.append(np.array([self.hrow_indices[index]]))
+            row_indices.append(np.array([first_index]))
             row_indices.append(tiepos)
-            row_indices.append(np.array([self.hrow_indices[index + chunk_size - 1]]))
+            row_indices.append(np.array([last_index]))
 
         for num in range(len(self.tie_data)):
             self.tie_data[num] = np.vstack(tmp_data[num])
-- 
2.43.0


From a7acc7574705ced34b77f80ab5bf63a19011e7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:01 +0000
Subject: [PATCH 08/31] fix: row border filling when tie rows already are on
 the border

The first and last fine row of each chunk were added even if a tie row is
there already, so that the spline interpolation failed on duplicate positions.
---
 geotiepoints/interpolator.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/geotiepoints/interpolator.py b/geotiepoints/interpolator.py
index 606069b..63a72b5 100644
--- a/geotiepoints/interpolator.py
+++ b/geotiepoints/interpolator.py
@@ -179,6 +179,9 @@ class Interpolator:
                 indices &= self.row_indices < self.hrow_indices[index + chunk_size]
             ties = np.argwhere(indices).squeeze()
             tiepos = self.row_indices[indices].squeeze()
+            # nothing to add where a tie row already is on the border
+            new_rows = slice(1 if tiepos[0] == first_index else 0,
+                             -1 if tiepos[-1] == last_index else None)
 
             for num, data in enumerate(self.tie_data):
                 to_extrapolate = data[ties, :]
@@ -187,11 +190,9 @@ class Interpolator:
                                                           tiepos,
                                                           first_index,
                                                           last_index)
-                    tmp_data[num].append(extrapolated)
+                    tmp_data[num].append(extrapolated[new_rows])
 
-            row_indices.append(np.array([first_index]))
-            row_indices.append(tiepos)
-            row_indices.append(np.array([last_index]))
+            row_indices.append(np.concatenate(([first_index], tiepos, [last_index]))[new_rows])
 
         for num in range(len(self.tie_data)):
             self.tie_data[num] = np.vstack(tmp_data[num])
-- 
2.43.0


From e954f0fa0c5d0c579f40f61a48f6fe986a53ee88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:04 +0000
Subject: [PATCH 09/31] fix: chunked interpolation ignored the fine positions

interpolate with chunks always evaluated at the positions 0, 1, 2, ... whatever
fine points were asked for.
---
 geotiepoints/interpolator.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/geotiepoints/interpolator.py b/geotiepoints/interpolator.py
index 63a72b5..7041ae4 100644
--- a/geotiepoints/interpolator.py
+++ b/geotiepoints/interpolator.py
@@ -276,11 +276,12 @@ class AbstractSingleInterpolator(ABC):
         token = tokenize(chunks, self.points, self.values, fine_points, interpolator_call_kwargs)
         name = 'interpolate-' + token
 
-        interpolate_slices = partial(self.interpolate_slices, **interpolator_call_kwargs)
+        interpolate_points = partial(self.interpolate_numpy, **interpolator_call_kwargs)
+        v_fine_points, h_fine_points = np.asarray(v_fine_points), np.asarray(h_fine_points)
 
-        dskx = {(name, ) + position: (interpolate_slices,
-                                      slices)
-                for position, slices in _enumerate_chunk_slices(chunks)}
+        dskx = {(name, ) + position: (interpolate_points,
+                                      (v_fine_points[v_slice], h_fine_points[h_slice]))
+                for position, (v_slice, h_slice) in _enumerate_chunk_slices(chunks)}
 
         res = da.Array(dskx, name, shape=list(shape),
                        chunks=chunks,
-- 
2.43.0


From 43aead23d81ca7e4d5bd98573ce2ff9c029f3420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:06 +0000
Subject: [PATCH 10/31] fix: chunked results of different interpolators shared
 a dask name

The name did not depend on the scheme and options of the interpolator, so that
computing e.g. a linear and a cubic, or a grid and a spline result of the same
tie points together returned one of them for both.
---
 geotiepoints/interpolator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geotiepoints/interpolator.py b/geotiepoints/interpolator.py
index 7041ae4..85d772f 100644
--- a/geotiepoints/interpolator.py
+++ b/geotiepoints/interpolator.py
@@ -273,7 +273,8 @@ class AbstractSingleInterpolator(ABC):
 
         chunks = normalize_chunks(chunks, shape, dtype=self.values.dtype)
 
-        token = tokenize(chunks, self.points, self.values, fine_points, interpolator_call_kwargs)
+        token = tokenize(chunks, type(self), self.interpolator, self.points, self.values, fine_points,
+                         interpolator_call_kwargs)
         name = 'interpolate-' + token
 
         interpolate_points = partial(self.interpolate_numpy, **interpolator_call_kwargs)
-- 
2.43.0


From 0fd6850155c34dc7235196e4384cb3b42846d94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:06 +0000
Subject: [PATCH 11/31] fix: use DataFrame.to_numpy in the basic interpolator

DataFrame.as_matrix does not exist any more in pandas >= 1.0, so that every
call of BasicSatelliteInterpolator.interpolate failed.
---
 geotiepoints/basic_interpolator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geotiepoints/basic_interpolator.py b/geotiepoints/basic_interpolator.py
index 7b990dd..5245f76 100644
--- a/geotiepoints/basic_interpolator.py
+++ b/geotiepoints/basic_interpolator.py
@@ -54,10 +54,10 @@ class BasicSatelliteInterpolator(object):
             return self._pandas_interp(data, self.row_indices)
         
         if axis == 1:
-            data_transposed = data.as_matrix().T
+            data_transposed = data.to_numpy().T
             data_interpol_transposed = self._pandas_interp(data_transposed, 
                                                             self.col_indices)
-            data_interpol = data_interpol_transposed.as_matrix().T
+            data_interpol = data_interpol_transposed.to_numpy().T
 
             return data_interpol
 
-- 
2.43.0


From 10776601f0a9c83172220dc4813e90a0add3212a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:10 +0000
Subject: [PATCH 12/31] fix: MODIS zenith angle interpolation of double
 precision data

The pixel coordinates were always single precision, so that any double
precision input failed with 'Buffer dtype mismatch'.
---
 geotiepoints/_modis_interpolator.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geotiepoints/_modis_interpolator.pyx b/geotiepoints/_modis_interpolator.pyx
index bed18ee..59a042c 100644
--- a/geotiepoints/_modis_interpolator.pyx
+++ b/geotiepoints/_modis_interpolator.pyx
@@ -145,8 +145,8 @@ cdef class MODISInterpolator:
         cdef floating[:, ::1] a_scan_view = a_scan
 
         cdef tuple coords_xy = self._get_coords()
-        cdef np.ndarray[floating, ndim=1] x = coords_xy[0]
-        cdef np.ndarray[floating, ndim=1] y = coords_xy[1]
+        cdef np.ndarray[floating, ndim=1] x = coords_xy[0].astype(lon1.dtype, copy=False)
+        cdef np.ndarray[floating, ndim=1] y = coords_xy[1].astype(lon1.dtype, copy=False)
         cdef floating[::1] x_view = x
         cdef floating[::1] y_view = y
 
-- 
2.43.0


From 7353b42c134c20489ee7824182955a826bee721e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:10 +0000
Subject: [PATCH 13/31] fix: NaN in MODIS interpolation where neighbouring
 zenith angles are zero

Two tie points with zenith angle 0 next to each other gave 0/0 as expansion
and alignment coefficients.
---
 geotiepoints/_modis_interpolator.pyx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/geotiepoints/_modis_interpolator.pyx b/geotiepoints/_modis_interpolator.pyx
index 59a042c..b68b192 100644
--- a/geotiepoints/_modis_interpolator.pyx
+++ b/geotiepoints/_modis_interpolator.pyx
@@ -60,6 +60,11 @@ cdef void _compute_expansion_alignment(floating[:, :] satz_a, floating [:, :] sa
             theta = _compute_theta(zeta, phi)
             # Workaround for tiepoints symmetrical about the subsatellite-track
             denominator = theta_a * 2 if theta_a == theta_b else theta_a - theta_b
+            if denominator == 0:
+                # both tiepoints are at the subsatellite-track, nothing to correct
+                c_expansion[i, j] = 0
+                c_alignment[i, j] = 0
+                continue
 
             c_expansion[i, j] = 4 * (((theta_a + theta_b) / 2 - theta) / denominator)
 
-- 
2.43.0


From c8cc2cf218683aa2fd0cb0eb8aae8fd3473812eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:51 +0000
Subject: [PATCH 14/31] fix: misplaced pixels in MODIS 5km to 500m and 250m
 interpolation

The position of the fine pixels in their 5km cell was always computed with the
two pixel offset of the 1km resolution, while the cells are laid out for 4 or 8
fine pixels, so that pixels were misplaced by up to 20 km. Derive the offset
from the fine resolution.
---
 geotiepoints/_modis_interpolator.pyx | 30 +++++++++++++---------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/geotiepoints/_modis_interpolator.pyx b/geotiepoints/_modis_interpolator.pyx
index b68b192..4572cc1 100644
--- a/geotiepoints/_modis_interpolator.pyx
+++ b/geotiepoints/_modis_interpolator.pyx
@@ -235,22 +235,20 @@ cdef class MODISInterpolator:
 
     @cython.wraparound(True)
     cdef tuple _get_coords_5km(self):
-        cdef np.ndarray[np.float32_t, ndim=1] y = np.arange(self._fine_pixels_per_coarse_pixel * self._coarse_scan_length, dtype=np.float32) - 2
-        cdef np.ndarray[np.float32_t, ndim=1] x = (np.arange(self._fine_scan_width, dtype=np.float32) - 2) % self._fine_pixels_per_coarse_pixel
-        x[0] = -2
-        x[1] = -1
-        if self._coarse_scan_width == 271:
-            x[-2] = 5
-            x[-1] = 6
-        else:
-            # self._coarse_scan_width == 270
-            x[-7] = 5
-            x[-6] = 6
-            x[-5] = 7
-            x[-4] = 8
-            x[-3] = 9
-            x[-2] = 10
-            x[-1] = 11
+        # the first tie point is the third 1km pixel (index 2) in both directions, fine pixels of the same line share
+        # their first sample with the 1km pixel across track and are centered on it along track
+        cdef int fine_pixels_per_1km = self._fine_pixels_per_coarse_pixel // self._coarse_pixels_per_1km
+        cdef np.ndarray[np.float32_t, ndim=1] y = (
+            np.arange(self._fine_pixels_per_coarse_pixel * self._coarse_scan_length, dtype=np.float32)
+            - (self._factor_5km + (fine_pixels_per_1km - 1) / 2.0))
+        cdef np.ndarray[np.float32_t, ndim=1] x = (
+            (np.arange(self._fine_scan_width, dtype=np.float32) - self._factor_5km) % self._fine_pixels_per_coarse_pixel)
+        x[:self._factor_5km] = np.arange(-self._factor_5km, 0)
+        # columns to the right of the last full cell
+        cdef Py_ssize_t right = self._factor_5km
+        if self._coarse_scan_width == 270:
+            right += self._fine_pixels_per_coarse_pixel
+        x[-right:] = self._fine_pixels_per_coarse_pixel + np.arange(right)
         return x, y
 
     cdef void _interpolate_lons_lats(self,
-- 
2.43.0


From 2c64412feb477a542cc3a85420718fe692905b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:09 +0000
Subject: [PATCH 15/31] fix: refuse MODIS input that is not of whole scans of
 the right shape

Plain arrays with incomplete scans gave rows of uninitialised memory, arrays of
different shapes or of another width than the instrument's made the compiled
code read or write outside of its arrays. Such input now raises an error for
all kinds of arrays, as incomplete scans already did for dask arrays.
---
 geotiepoints/_modis_interpolator.pyx        |  3 +++
 geotiepoints/_modis_utils.pyx               | 18 ++++++++++++------
 geotiepoints/_simple_modis_interpolator.pyx |  2 ++
 3 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/geotiepoints/_modis_interpolator.pyx b/geotiepoints/_modis_interpolator.pyx
index 4572cc1..8435b4f 100644
--- a/geotiepoints/_modis_interpolator.pyx
+++ b/geotiepoints/_modis_interpolator.pyx
@@ -34,6 +34,9 @@ def interpolate(
         raise NotImplementedError(
             "Can't interpolate if 5km tiepoints have less than 270 columns."
         )
+    cdef unsigned int expected_width = 1354 if coarse_resolution == 1000 else (coarse_scan_width or 271)
+    if lon1.shape[1] != expected_width:
+        raise ValueError(f"Expected arrays of the full scan width ({expected_width} columns).")
     interp = MODISInterpolator(coarse_resolution, fine_resolution, coarse_scan_width=coarse_scan_width or 0)
     return interp.interpolate(lon1, lat1, satz1)
 
diff --git a/geotiepoints/_modis_utils.pyx b/geotiepoints/_modis_utils.pyx
index 1d1b02a..ff65c76 100644
--- a/geotiepoints/_modis_utils.pyx
+++ b/geotiepoints/_modis_utils.pyx
@@ -100,8 +100,7 @@ def scanline_mapblocks(func):
         if coarse_resolution is None or fine_resolution is None:
             raise ValueError("'coarse_resolution' and 'fine_resolution' are required keyword arguments.")
         first_arr = [arr for arr in args if hasattr(arr, "ndim")][0]
-        if first_arr.ndim != 2 or first_arr.ndim != 2:
-            raise ValueError("Expected 2D input arrays.")
+        _check_arrays(args, rows_per_scan_for_resolution(coarse_resolution))
         if hasattr(first_arr, "compute"):
             # assume it is dask or xarray with dask, ensure proper chunk size
             # if DataArray get just the dask array
@@ -129,6 +128,17 @@ def scanline_mapblocks(func):
     return _wrapper
 
 
+def _check_arrays(args, rows_per_scan: int):
+    arrays = [arr for arr in args if hasattr(arr, "ndim")]
+    if any(arr.ndim != 2 for arr in arrays):
+        raise ValueError("Expected 2D input arrays.")
+    if any(arr.shape != arrays[0].shape for arr in arrays):
+        raise ValueError("Expected input arrays of the same shape.")
+    if arrays[0].shape[0] % rows_per_scan != 0:
+        raise ValueError("Input longitude/latitude data does not consist of "
+                         f"whole scans ({rows_per_scan} rows per scan).")
+
+
 def _extract_dask_arrays_from_args(args):
     return [arr_obj.data if hasattr(arr_obj, "dims") else arr_obj for arr_obj in args]
 
@@ -167,15 +177,11 @@ def _rechunk_dask_arrays_if_needed(args, rows_per_scan: int):
     first_arr = [arr for arr in args if hasattr(arr, "ndim")][0]
     row_chunks = first_arr.chunks[0]
     col_chunks = first_arr.chunks[1]
-    num_rows = first_arr.shape[0]
     num_cols = first_arr.shape[1]
     good_row_chunks = all(x % rows_per_scan == 0 for x in row_chunks)
     good_col_chunks = len(col_chunks) == 1 and col_chunks[0] != num_cols
     all_orig_chunks = [arr.chunks for arr in args if hasattr(arr, "chunks")]
 
-    if num_rows % rows_per_scan != 0:
-        raise ValueError("Input longitude/latitude data does not consist of "
-                         "whole scans (10 rows per scan).")
     all_same_chunks = all(
         all_orig_chunks[0] == some_chunks
         for some_chunks in all_orig_chunks[1:]
diff --git a/geotiepoints/_simple_modis_interpolator.pyx b/geotiepoints/_simple_modis_interpolator.pyx
index f1e4c58..4e17df7 100644
--- a/geotiepoints/_simple_modis_interpolator.pyx
+++ b/geotiepoints/_simple_modis_interpolator.pyx
@@ -15,6 +15,8 @@ def interpolate_geolocation_cartesian(
         np.ndarray[floating, ndim=2] lat_array,
         unsigned int coarse_resolution,
         unsigned int fine_resolution):
+    if lon_array.shape[1] < 2:
+        raise ValueError("Expected arrays of at least two columns.")
     lon_array = np.ascontiguousarray(lon_array)
     lat_array = np.ascontiguousarray(lat_array)
     cdef unsigned int rows_per_scan = rows_per_scan_for_resolution(coarse_resolution)
-- 
2.43.0


From efdd6cd5089ac607699f76632c65f87836828514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:57 +0000
Subject: [PATCH 16/31] fix: MODIS interpolation of dask arrays with chunks
 smaller than a scan

The new chunk size was rounded down to 0 rows, which failed with a
ZeroDivisionError.
---
 geotiepoints/_modis_utils.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotiepoints/_modis_utils.pyx b/geotiepoints/_modis_utils.pyx
index ff65c76..c9bac8f 100644
--- a/geotiepoints/_modis_utils.pyx
+++ b/geotiepoints/_modis_utils.pyx
@@ -189,7 +189,7 @@ def _rechunk_dask_arrays_if_needed(args, rows_per_scan: int):
     if good_row_chunks and good_col_chunks and all_same_chunks:
         return args
 
-    new_row_chunks = (row_chunks[0] // rows_per_scan) * rows_per_scan
+    new_row_chunks = max(row_chunks[0] // rows_per_scan, 1) * rows_per_scan
     new_args = [arr.rechunk((new_row_chunks, -1)) if hasattr(arr, "chunks") else arr for arr in args]
     return new_args
 
-- 
2.43.0


From 064d2eeff5ab7d60077d7c1de190e44da323fbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:57 +0000
Subject: [PATCH 17/31] fix: announced width of lazy simple MODIS interpolation

Dask results always announced 1354 input columns, although the simple
interpolation works for, and returns, any number of columns.
---
 geotiepoints/_modis_utils.pyx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/geotiepoints/_modis_utils.pyx b/geotiepoints/_modis_utils.pyx
index c9bac8f..6f90897 100644
--- a/geotiepoints/_modis_utils.pyx
+++ b/geotiepoints/_modis_utils.pyx
@@ -147,8 +147,11 @@ def _call_map_blocks_interp(func, coarse_resolution, fine_resolution, *args, **k
     first_arr = [arr for arr in args if hasattr(arr, "ndim")][0]
     res_factor = coarse_resolution // fine_resolution
     new_row_chunks = tuple(x * res_factor for x in first_arr.chunks[0])
-    fine_pixels_per_1km = {250: 4, 500: 2, 1000: 1}[fine_resolution]
-    fine_scan_width = 1354 * fine_pixels_per_1km
+    if coarse_resolution == 1000:
+        fine_scan_width = first_arr.shape[1] * res_factor
+    else:
+        fine_pixels_per_1km = {250: 4, 500: 2, 1000: 1}[fine_resolution]
+        fine_scan_width = 1354 * fine_pixels_per_1km
     new_col_chunks = (fine_scan_width,)
     wrapped_func = _map_blocks_handler(func)
     res = da.map_blocks(wrapped_func, *args,
-- 
2.43.0


From ccbac48d920ee34db209d67312d29f25916d5c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:07 +0000
Subject: [PATCH 18/31] fix: MODIS interpolation of in-memory and mixed
 labelled arrays

DataArrays holding numpy arrays failed with an AttributeError although they
are documented input, and a numpy array next to dask arrays was passed as a
whole to the interpolation of every chunk.
---
 geotiepoints/_modis_utils.pyx | 38 +++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/geotiepoints/_modis_utils.pyx b/geotiepoints/_modis_utils.pyx
index 6f90897..ec3c87a 100644
--- a/geotiepoints/_modis_utils.pyx
+++ b/geotiepoints/_modis_utils.pyx
@@ -101,10 +101,11 @@ def scanline_mapblocks(func):
             raise ValueError("'coarse_resolution' and 'fine_resolution' are required keyword arguments.")
         first_arr = [arr for arr in args if hasattr(arr, "ndim")][0]
         _check_arrays(args, rows_per_scan_for_resolution(coarse_resolution))
-        if hasattr(first_arr, "compute"):
-            # assume it is dask or xarray with dask, ensure proper chunk size
-            # if DataArray get just the dask array
-            dask_args = _extract_dask_arrays_from_args(args)
+        # if DataArray get just the numpy or dask array
+        array_args = _extract_arrays_from_args(args)
+        if any(_is_dask(arr) for arr in array_args):
+            # ensure proper chunk size
+            dask_args = [da.asarray(arr) if hasattr(arr, "ndim") else arr for arr in array_args]
             rows_per_scan = rows_per_scan_for_resolution(coarse_resolution)
             rechunked_args = _rechunk_dask_arrays_if_needed(dask_args, rows_per_scan)
             results = _call_map_blocks_interp(
@@ -114,16 +115,17 @@ def scanline_mapblocks(func):
                 *rechunked_args,
                 **kwargs
             )
-            if hasattr(first_arr, "dims"):
-                # recreate DataArrays
-                results = _results_to_data_arrays(first_arr.dims, *results)
-            return results
-        return func(
-            *args,
-            coarse_resolution=coarse_resolution,
-            fine_resolution=fine_resolution,
-            **kwargs
-        )
+        else:
+            results = func(
+                *array_args,
+                coarse_resolution=coarse_resolution,
+                fine_resolution=fine_resolution,
+                **kwargs
+            )
+        if hasattr(first_arr, "dims"):
+            # recreate DataArrays
+            results = _results_to_data_arrays(first_arr.dims, *results)
+        return results
 
     return _wrapper
 
@@ -139,7 +141,11 @@ def _check_arrays(args, rows_per_scan: int):
                          f"whole scans ({rows_per_scan} rows per scan).")
 
 
-def _extract_dask_arrays_from_args(args):
+def _is_dask(arr):
+    return da is not None and isinstance(arr, da.Array)
+
+
+def _extract_arrays_from_args(args):
     return [arr_obj.data if hasattr(arr_obj, "dims") else arr_obj for arr_obj in args]
 
 
@@ -168,8 +174,6 @@ def _call_map_blocks_interp(func, coarse_resolution, fine_resolution, *args, **k
 def _results_to_data_arrays(dims, *results):
     new_results = []
     for result in results:
-        if not isinstance(result, da.Array):
-            continue
         data_arr = xr.DataArray(result, dims=dims)
         new_results.append(data_arr)
     return new_results
-- 
2.43.0


From 66f9665f37b8c4ad900b7892e04a28c2006e034c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:33 +0000
Subject: [PATCH 19/31] fix: multilinear extrapolation far outside of the grid

The position was converted to an integer before clipping it to the grid, so
that positions beyond the range of integers continued the first instead of the
last cell.
---
 geotiepoints/multilinear_cython.pyx | 40 ++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/geotiepoints/multilinear_cython.pyx b/geotiepoints/multilinear_cython.pyx
index c69c624..a24e03b 100644
--- a/geotiepoints/multilinear_cython.pyx
+++ b/geotiepoints/multilinear_cython.pyx
@@ -45,6 +45,16 @@ def multilinear_interpolation(floating[:] smin, floating[:] smax, long[:] orders
     return result_arr
 
 
+cdef inline int _cell_index(floating position, int order) noexcept nogil:
+    """Get the index of the cell holding the position (in cell units), or of the nearest one outside of the grid."""
+    # Clip before converting: positions far outside of the grid do not fit in an integer
+    if position >= order - 2:
+        return order - 2
+    if position > 0:
+        return <int>position
+    return 0
+
+
 cdef void multilinear_interpolation_1d(floating[:] smin, floating[:] smax,
                                        long[:] orders, floating[:] V,
                                        int n_s, floating[:,::1] s, floating[:] output) noexcept nogil:
@@ -65,7 +75,7 @@ cdef void multilinear_interpolation_1d(floating[:] smin, floating[:] smax,
             sn_0 = (s_0-smin[0])/(smax[0]-smin[0])
 
             # q_k : index of the interval "containing" s_k
-            q_0 = max( min( <int>(sn_0 *(order_0-1)), (order_0-2) ), 0 )
+            q_0 = _cell_index(sn_0 *(order_0-1), order_0)
 
             # lam_k : barycentric coordinate in interval k
             lam_0 = sn_0*(order_0-1) - q_0
@@ -106,8 +116,8 @@ cdef void multilinear_interpolation_2d(floating[:] smin, floating[:] smax,
             sn_1 = (s_1-smin[1])/(smax[1]-smin[1])
 
             # q_k : index of the interval "containing" s_k
-            q_0 = max( min( <int>(sn_0 *(order_0-1)), (order_0-2) ), 0 )
-            q_1 = max( min( <int>(sn_1 *(order_1-1)), (order_1-2) ), 0 )
+            q_0 = _cell_index(sn_0 *(order_0-1), order_0)
+            q_1 = _cell_index(sn_1 *(order_1-1), order_1)
 
             # lam_k : barycentric coordinate in interval k
             lam_0 = sn_0*(order_0-1) - q_0
@@ -160,9 +170,9 @@ cdef void multilinear_interpolation_3d(floating[:] smin, floating[:] smax,
             sn_2 = (s_2-smin[2])/(smax[2]-smin[2])
 
             # q_k : index of the interval "containing" s_k
-            q_0 = max( min( <int>(sn_0 *(order_0-1)), (order_0-2) ), 0 )
-            q_1 = max( min( <int>(sn_1 *(order_1-1)), (order_1-2) ), 0 )
-            q_2 = max( min( <int>(sn_2 *(order_2-1)), (order_2-2) ), 0 )
+            q_0 = _cell_index(sn_0 *(order_0-1), order_0)
+            q_1 = _cell_index(sn_1 *(order_1-1), order_1)
+            q_2 = _cell_index(sn_2 *(order_2-1), order_2)
 
             # lam_k : barycentric coordinate in interval k
             lam_0 = sn_0*(order_0-1) - q_0
@@ -235,10 +245,10 @@ cdef void multilinear_interpolation_4d(floating[:] smin, floating[:] smax,
             sn_3 = (s_3-smin[3])/(smax[3]-smin[3])
 
             # q_k : index of the interval "containing" s_k
-            q_0 = max( min( <int>(sn_0 *(order_0-1)), (order_0-2) ), 0 )
-            q_1 = max( min( <int>(sn_1 *(order_1-1)), (order_1-2) ), 0 )
-            q_2 = max( min( <int>(sn_2 *(order_2-1)), (order_2-2) ), 0 )
-            q_3 = max( min( <int>(sn_3 *(order_3-1)), (order_3-2) ), 0 )
+            q_0 = _cell_index(sn_0 *(order_0-1), order_0)
+            q_1 = _cell_index(sn_1 *(order_1-1), order_1)
+            q_2 = _cell_index(sn_2 *(order_2-1), order_2)
+            q_3 = _cell_index(sn_3 *(order_3-1), order_3)
 
             # lam_k : barycentric coordinate in interval k
             lam_0 = sn_0*(order_0-1) - q_0
@@ -341,11 +351,11 @@ cdef void multilinear_interpolation_5d(floating[:] smin, floating[:] smax,
             sn_4 = (s_4-smin[4])/(smax[4]-smin[4])
 
             # q_k : index of the interval "containing" s_k
-            q_0 = max( min( <int>(sn_0 *(order_0-1)), (order_0-2) ), 0 )
-            q_1 = max( min( <int>(sn_1 *(order_1-1)), (order_1-2) ), 0 )
-            q_2 = max( min( <int>(sn_2 *(order_2-1)), (order_2-2) ), 0 )
-            q_3 = max( min( <int>(sn_3 *(order_3-1)), (order_3-2) ), 0 )
-            q_4 = max( min( <int>(sn_4 *(order_4-1)), (order_4-2) ), 0 )
+            q_0 = _cell_index(sn_0 *(order_0-1), order_0)
+            q_1 = _cell_index(sn_1 *(order_1-1), order_1)
+            q_2 = _cell_index(sn_2 *(order_2-1), order_2)
+            q_3 = _cell_index(sn_3 *(order_3-1), order_3)
+            q_4 = _cell_index(sn_4 *(order_4-1), order_4)
 
             # lam_k : barycentric coordinate in interval k
             lam_0 = sn_0*(order_0-1) - q_0
-- 
2.43.0


From ec6d7150150a4f7f42b83358254920625f1d8e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:13 +0000
Subject: [PATCH 20/31] fix: refuse multilinear points and values that do not
 fit the grid

A wrong number of dimensions or values made the compiled code read outside of
the arrays.
---
 geotiepoints/multilinear_cython.pyx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/geotiepoints/multilinear_cython.pyx b/geotiepoints/multilinear_cython.pyx
index a24e03b..bf51b10 100644
--- a/geotiepoints/multilinear_cython.pyx
+++ b/geotiepoints/multilinear_cython.pyx
@@ -29,6 +29,11 @@ def multilinear_interpolation(floating[:] smin, floating[:] smax, long[:] orders
     if d > 4:
         raise Exception("Can't interpolate in dimension strictly greater than 5")
 
+    if not (d == orders.shape[0] == smin.shape[0] == smax.shape[0]) or d == 0:
+        raise ValueError("The number of dimensions of the points and the grid differ")
+    if min(orders) < 2 or values.shape[1] != np.prod(orders):
+        raise ValueError("The values do not fit a grid with at least two nodes in each dimension")
+
     with nogil:
         for i in range(n_v):
             vals = values[i, :]
-- 
2.43.0


From 9920a0d09b44d2f83a228df0a98f98ab4abec861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:32 +0000
Subject: [PATCH 21/31] fix: MODIS pixels at nadir for zenith angles that
 differ only by rounding

---
 geotiepoints/_modis_interpolator.pyx | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/geotiepoints/_modis_interpolator.pyx b/geotiepoints/_modis_interpolator.pyx
index 8435b4f..543ebba 100644
--- a/geotiepoints/_modis_interpolator.pyx
+++ b/geotiepoints/_modis_interpolator.pyx
@@ -3,7 +3,7 @@ cimport cython
 from ._modis_utils cimport lonlat2xyz, xyz2lonlat, floating, deg2rad
 from .simple_modis_interpolator import scanline_mapblocks
 
-from libc.math cimport asin, sin, cos, sqrt
+from libc.math cimport asin, sin, cos, fabs, sqrt
 cimport numpy as np
 import numpy as np
 
@@ -61,8 +61,12 @@ cdef void _compute_expansion_alignment(floating[:, :] satz_a, floating [:, :] sa
             phi = (phi_a + phi_b) / 2
             zeta = _compute_zeta(phi)
             theta = _compute_theta(zeta, phi)
-            # Workaround for tiepoints symmetrical about the subsatellite-track
-            denominator = theta_a * 2 if theta_a == theta_b else theta_a - theta_b
+            # Workaround for tiepoints symmetrical about the subsatellite-track. Both angles are positive
+            # there, and may differ by rounding although the tiepoints are on either side of the track.
+            if fabs(theta_a - theta_b) < 0.01 * scan_width / R:
+                denominator = theta_a + theta_b
+            else:
+                denominator = theta_a - theta_b
             if denominator == 0:
                 # both tiepoints are at the subsatellite-track, nothing to correct
                 c_expansion[i, j] = 0
-- 
2.43.0


From 3c65e66cdd01eb7bb2b09cb4377e35123891d93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:31 +0000
Subject: [PATCH 22/31] fix: refuse VII longitudes and latitudes of different
 dimensions also in Cartesian mode

---
 geotiepoints/viiinterpolator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotiepoints/viiinterpolator.py b/geotiepoints/viiinterpolator.py
index 37c6517..aee4168 100644
--- a/geotiepoints/viiinterpolator.py
+++ b/geotiepoints/viiinterpolator.py
@@ -109,7 +109,7 @@ def tie_points_geo_interpolation(longitude, latitude,
 
     """
     # Check that the two arrays have the same dimensions
-    if longitude.shape != latitude.shape:
+    if longitude.shape != latitude.shape or longitude.dims != latitude.dims:
         raise ValueError("The dimensions of longitude and latitude don't match")
 
     # Determine if the interpolation should be done in cartesian or geodetic coordinates
-- 
2.43.0


From 8bc5b4a2f22dd305c11ad90b24b4c99723e53a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:31 +0000
Subject: [PATCH 23/31] fix: refuse data with more lines than tie rows in
 one-dimensional interpolation

---
 geotiepoints/interpolator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/geotiepoints/interpolator.py b/geotiepoints/interpolator.py
index 85d772f..8d3b8d0 100644
--- a/geotiepoints/interpolator.py
+++ b/geotiepoints/interpolator.py
@@ -218,6 +218,8 @@ class Interpolator:
         lines = len(self.hrow_indices)
 
         for num, data in enumerate(self.tie_data):
+            if data.shape[0] != lines:
+                raise ValueError("The number of lines of data must match the number of tie rows.")
             self.new_data[num] = np.empty((len(self.hrow_indices),
                                            len(self.hcol_indices)),
                                           data.dtype)
-- 
2.43.0


From 376f69206a83327138b4b4ea089618beaf81dd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:21 +0000
Subject: [PATCH 24/31] fix: repeated interpolation replaced earlier results

---
 geotiepoints/interpolator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geotiepoints/interpolator.py b/geotiepoints/interpolator.py
index 8d3b8d0..3138031 100644
--- a/geotiepoints/interpolator.py
+++ b/geotiepoints/interpolator.py
@@ -233,7 +233,8 @@ class Interpolator:
         """Do the interpolation, and return resulting longitudes and latitudes."""
         self._interp()
 
-        return self.new_data
+        # a list of its own, so that another interpolation doesn't replace these results
+        return list(self.new_data)
 
 
 class AbstractSingleInterpolator(ABC):
-- 
2.43.0


From 2a79b8f567f1129a0167833ea7f37d688d7c5086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:18 +0000
Subject: [PATCH 25/31] fix: refuse MODIS input without arrays instead of
 crashing

---
 geotiepoints/_modis_utils.pyx | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/geotiepoints/_modis_utils.pyx b/geotiepoints/_modis_utils.pyx
index ec3c87a..098cacf 100644
--- a/geotiepoints/_modis_utils.pyx
+++ b/geotiepoints/_modis_utils.pyx
@@ -99,8 +99,8 @@ def scanline_mapblocks(func):
     def _wrapper(*args, coarse_resolution=None, fine_resolution=None, **kwargs):
         if coarse_resolution is None or fine_resolution is None:
             raise ValueError("'coarse_resolution' and 'fine_resolution' are required keyword arguments.")
-        first_arr = [arr for arr in args if hasattr(arr, "ndim")][0]
         _check_arrays(args, rows_per_scan_for_resolution(coarse_resolution))
+        first_arr = [arr for arr in args if hasattr(arr, "ndim")][0]
         # if DataArray get just the numpy or dask array
         array_args = _extract_arrays_from_args(args)
         if any(_is_dask(arr) for arr in array_args):
@@ -131,12 +131,14 @@ def scanline_mapblocks(func):
 
 
 def _check_arrays(args, rows_per_scan: int):
-    arrays = [arr for arr in args if hasattr(arr, "ndim")]
-    if any(arr.ndim != 2 for arr in arrays):
+    if not args or not all(hasattr(arr, "ndim") for arr in args):
+        # the compiled code would crash on None
+        raise ValueError("Expected array inputs.")
+    if any(arr.ndim != 2 for arr in args):
         raise ValueError("Expected 2D input arrays.")
-    if any(arr.shape != arrays[0].shape for arr in arrays):
+    if any(arr.shape != args[0].shape for arr in args):
         raise ValueError("Expected input arrays of the same shape.")
-    if arrays[0].shape[0] % rows_per_scan != 0:
+    if args[0].shape[0] % rows_per_scan != 0:
         raise ValueError("Input longitude/latitude data does not consist of "
                          f"whole scans ({rows_per_scan} rows per scan).")
 
-- 
2.43.0


From 172db7bffe37743e0c7dc8cc08549730f60565fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:04 +0000
Subject: [PATCH 26/31] fix: honour the step of the slices to interpolate to

---
 geotiepoints/interpolator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geotiepoints/interpolator.py b/geotiepoints/interpolator.py
index 3138031..902734a 100644
--- a/geotiepoints/interpolator.py
+++ b/geotiepoints/interpolator.py
@@ -303,8 +303,8 @@ class AbstractSingleInterpolator(ABC):
         *fine_points* are a tuple of slices for the y and x dimensions
         """
         slice_y, slice_x = fine_points
-        points_y = np.arange(slice_y.start, slice_y.stop)
-        points_x = np.arange(slice_x.start, slice_x.stop)
+        points_y = np.arange(slice_y.start, slice_y.stop, slice_y.step)
+        points_x = np.arange(slice_x.start, slice_x.stop, slice_x.step)
         fine_points = points_y, points_x
 
         return self.interpolate_numpy(fine_points, **interpolator_call_kwargs)
-- 
2.43.0


From c4bca0dac8ad11c0ebae7c57b758d126dde4550d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:02 +0000
Subject: [PATCH 27/31] fix: read-only arrays were refused by the compiled
 routines

---
 geotiepoints/_modis_interpolator.pyx        | 26 ++++++++--------
 geotiepoints/_modis_utils.pxd               |  4 +--
 geotiepoints/_modis_utils.pyx               |  4 +--
 geotiepoints/_simple_modis_interpolator.pyx |  4 +--
 geotiepoints/multilinear_cython.pyx         | 34 ++++++++++-----------
 5 files changed, 36 insertions(+), 36 deletions(-)

diff --git a/geotiepoints/_modis_interpolator.pyx b/geotiepoints/_modis_interpolator.pyx
index 543ebba..37c2cab 100644
--- a/geotiepoints/_modis_interpolator.pyx
+++ b/geotiepoints/_modis_interpolator.pyx
@@ -41,7 +41,7 @@ def interpolate(
     return interp.interpolate(lon1, lat1, satz1)
 
 
-cdef void _compute_expansion_alignment(floating[:, :] satz_a, floating [:, :] satz_b, int scan_width,
+cdef void _compute_expansion_alignment(const floating[:, :] satz_a, const floating[:, :] satz_b, int scan_width,
                                        floating[:, ::1] c_expansion, floating[:, ::1] c_alignment) noexcept nogil:
     """Fill in expansion and alignment.
     
@@ -94,11 +94,11 @@ cdef inline floating _compute_zeta(floating phi) noexcept nogil:
     return asin((R + H) * sin(phi) / R)
 
 
-cdef inline floating[:, :] _get_upper_left_corner(floating[:, ::1] arr) noexcept nogil:
+cdef inline const floating[:, :] _get_upper_left_corner(const floating[:, ::1] arr) noexcept nogil:
     return arr[:arr.shape[0] - 1, :arr.shape[1] - 1]
 
 
-cdef inline floating[:, :] _get_upper_right_corner(floating[:, ::1] arr) noexcept nogil:
+cdef inline const floating[:, :] _get_upper_right_corner(const floating[:, ::1] arr) noexcept nogil:
     return arr[:arr.shape[0] - 1, 1:]
 
 
@@ -179,9 +179,9 @@ cdef class MODISInterpolator:
         cdef unsigned int scans = satz1.shape[0] // self._coarse_scan_length
         cdef np.ndarray[floating, ndim=2] new_lons = np.empty((satz1.shape[0] * self._fine_pixels_per_coarse_pixel, self._fine_scan_width), dtype=lon1.dtype)
         cdef np.ndarray[floating, ndim=2] new_lats = np.empty((satz1.shape[0] * self._fine_pixels_per_coarse_pixel, self._fine_scan_width), dtype=lon1.dtype)
-        cdef floating[:, ::1] coarse_lons = lon1
-        cdef floating[:, ::1] coarse_lats = lat1
-        cdef floating[:, ::1] coarse_satz = satz1
+        cdef const floating[:, ::1] coarse_lons = lon1
+        cdef const floating[:, ::1] coarse_lats = lat1
+        cdef const floating[:, ::1] coarse_satz = satz1
         cdef floating[:, ::1] fine_lons = new_lons
         cdef floating[:, ::1] fine_lats = new_lats
         with nogil:
@@ -260,9 +260,9 @@ cdef class MODISInterpolator:
 
     cdef void _interpolate_lons_lats(self,
                                      unsigned int scans,
-                                     floating[:, ::1] coarse_lons,
-                                     floating[:, ::1] coarse_lats,
-                                     floating[:, ::1] coarse_satz,
+                                     const floating[:, ::1] coarse_lons,
+                                     const floating[:, ::1] coarse_lats,
+                                     const floating[:, ::1] coarse_satz,
                                      floating[::1] x,
                                      floating[::1] y,
                                      floating[:, ::1] a_track,
@@ -276,7 +276,7 @@ cdef class MODISInterpolator:
                                      floating[:, ::1] fine_lons,
                                      floating[:, ::1] fine_lats,
                                      ) noexcept nogil:
-        cdef floating[:, ::1] lons_scan, lats_scan, satz_scan
+        cdef const floating[:, ::1] lons_scan, lats_scan, satz_scan
         cdef floating[:, ::1] new_lons_scan, new_lats_scan
         cdef Py_ssize_t scan_idx
         for scan_idx in range(0, scans):
@@ -304,7 +304,7 @@ cdef class MODISInterpolator:
 
     cdef void _get_atrack_ascan(
             self,
-            floating[:, ::1] satz,
+            const floating[:, ::1] satz,
             floating[::1] x,
             floating[::1] y,
             floating[:, ::1] c_exp_coarse,
@@ -314,8 +314,8 @@ cdef class MODISInterpolator:
             floating[:, ::1] a_track,
             floating[:, ::1] a_scan
     ) noexcept nogil:
-        cdef floating[:, :] satz_a_view = _get_upper_left_corner(satz)
-        cdef floating[:, :] satz_b_view = _get_upper_right_corner(satz)
+        cdef const floating[:, :] satz_a_view = _get_upper_left_corner(satz)
+        cdef const floating[:, :] satz_b_view = _get_upper_right_corner(satz)
         cdef Py_ssize_t scan_idx
         _compute_expansion_alignment(
             satz_a_view,
diff --git a/geotiepoints/_modis_utils.pxd b/geotiepoints/_modis_utils.pxd
index c8bf665..d9741b7 100644
--- a/geotiepoints/_modis_utils.pxd
+++ b/geotiepoints/_modis_utils.pxd
@@ -6,8 +6,8 @@ ctypedef fused floating:
     np.float64_t
 
 cdef void lonlat2xyz(
-        floating[:, ::1] lons,
-        floating[:, ::1] lats,
+        const floating[:, ::1] lons,
+        const floating[:, ::1] lats,
         floating[:, :, ::1] xyz,
 ) noexcept nogil
 
diff --git a/geotiepoints/_modis_utils.pyx b/geotiepoints/_modis_utils.pyx
index 098cacf..4a46d10 100644
--- a/geotiepoints/_modis_utils.pyx
+++ b/geotiepoints/_modis_utils.pyx
@@ -24,8 +24,8 @@ DEF EARTH_RADIUS = 6370997.0
 
 
 cdef void lonlat2xyz(
-        floating[:, ::1] lons,
-        floating[:, ::1] lats,
+        const floating[:, ::1] lons,
+        const floating[:, ::1] lats,
         floating[:, :, ::1] xyz,
 ) noexcept nogil:
     """Convert lons and lats to cartesian coordinates."""
diff --git a/geotiepoints/_simple_modis_interpolator.pyx b/geotiepoints/_simple_modis_interpolator.pyx
index 4e17df7..6d00e82 100644
--- a/geotiepoints/_simple_modis_interpolator.pyx
+++ b/geotiepoints/_simple_modis_interpolator.pyx
@@ -37,8 +37,8 @@ def interpolate_geolocation_cartesian(
     cdef np.ndarray[floating, ndim=3] xyz_in = np.empty(
         (rows_per_scan, num_cols, 3), dtype=lon_array.dtype)
     cdef floating[:, :, ::1] xyz_in_view = xyz_in
-    cdef floating[:, ::1] lon_in_view = lon_array
-    cdef floating[:, ::1] lat_in_view = lat_array
+    cdef const floating[:, ::1] lon_in_view = lon_array
+    cdef const floating[:, ::1] lat_in_view = lat_array
 
     cdef np.ndarray[floating, ndim=2] new_lons = np.empty((res_factor * num_rows, res_factor * num_cols),
                                                           dtype=lon_array.dtype)
diff --git a/geotiepoints/multilinear_cython.pyx b/geotiepoints/multilinear_cython.pyx
index bf51b10..afcc383 100644
--- a/geotiepoints/multilinear_cython.pyx
+++ b/geotiepoints/multilinear_cython.pyx
@@ -10,7 +10,7 @@ import numpy as np
 np.import_array()
 
 
-def multilinear_interpolation(floating[:] smin, floating[:] smax, long[:] orders, floating[:,::1] values, floating[:,::1] s):
+def multilinear_interpolation(const floating[:] smin, const floating[:] smax, const long[:] orders, const floating[:,::1] values, const floating[:,::1] s):
 
     cdef Py_ssize_t d = s.shape[0]
     cdef Py_ssize_t n_s = s.shape[1]
@@ -23,7 +23,7 @@ def multilinear_interpolation(floating[:] smin, floating[:] smax, long[:] orders
 
     cdef np.ndarray[floating, ndim=2] result_arr = np.empty((n_v, n_s), dtype=dtype)
     cdef floating[:, ::1] result = result_arr
-    cdef floating[:] vals
+    cdef const floating[:] vals
     cdef floating[:] res
 
     if d > 4:
@@ -60,9 +60,9 @@ cdef inline int _cell_index(floating position, int order) noexcept nogil:
     return 0
 
 
-cdef void multilinear_interpolation_1d(floating[:] smin, floating[:] smax,
-                                       long[:] orders, floating[:] V,
-                                       int n_s, floating[:,::1] s, floating[:] output) noexcept nogil:
+cdef void multilinear_interpolation_1d(const floating[:] smin, const floating[:] smax,
+                                       const long[:] orders, const floating[:] V,
+                                       int n_s, const floating[:,::1] s, floating[:] output) noexcept nogil:
 
     cdef int i
     cdef floating lam_0, s_0, sn_0, snt_0
@@ -93,9 +93,9 @@ cdef void multilinear_interpolation_1d(floating[:] smin, floating[:] smax,
             output[i] = (1-lam_0)*(v_0) + (lam_0)*(v_1)
 
 
-cdef void multilinear_interpolation_2d(floating[:] smin, floating[:] smax,
-                                       long[:] orders, floating[:] V,
-                                       int n_s, floating[:,::1] s, floating[:] output) noexcept nogil:
+cdef void multilinear_interpolation_2d(const floating[:] smin, const floating[:] smax,
+                                       const long[:] orders, const floating[:] V,
+                                       int n_s, const floating[:,::1] s, floating[:] output) noexcept nogil:
 
     cdef int i
     cdef floating lam_0, s_0, sn_0, snt_0
@@ -138,9 +138,9 @@ cdef void multilinear_interpolation_2d(floating[:] smin, floating[:] smax,
             output[i] = (1-lam_0)*((1-lam_1)*(v_00) + (lam_1)*(v_01)) + (lam_0)*((1-lam_1)*(v_10) + (lam_1)*(v_11))
 
 
-cdef void multilinear_interpolation_3d(floating[:] smin, floating[:] smax,
-                                       long[:] orders, floating[:] V,
-                                       int n_s, floating[:,::1] s, floating[:] output) noexcept nogil:
+cdef void multilinear_interpolation_3d(const floating[:] smin, const floating[:] smax,
+                                       const long[:] orders, const floating[:] V,
+                                       int n_s, const floating[:,::1] s, floating[:] output) noexcept nogil:
     cdef int i
     cdef floating lam_0, s_0, sn_0, snt_0
     cdef floating lam_1, s_1, sn_1, snt_1
@@ -198,9 +198,9 @@ cdef void multilinear_interpolation_3d(floating[:] smin, floating[:] smax,
             output[i] = (1-lam_0)*((1-lam_1)*((1-lam_2)*(v_000) + (lam_2)*(v_001)) + (lam_1)*((1-lam_2)*(v_010) + (lam_2)*(v_011))) + (lam_0)*((1-lam_1)*((1-lam_2)*(v_100) + (lam_2)*(v_101)) + (lam_1)*((1-lam_2)*(v_110) + (lam_2)*(v_111)))
 
 
-cdef void multilinear_interpolation_4d(floating[:] smin, floating[:] smax,
-                                       long[:] orders, floating[:] V,
-                                       int n_s, floating[:,::1] s, floating[:] output) noexcept nogil:
+cdef void multilinear_interpolation_4d(const floating[:] smin, const floating[:] smax,
+                                       const long[:] orders, const floating[:] V,
+                                       int n_s, const floating[:,::1] s, floating[:] output) noexcept nogil:
 
     cdef int i
     cdef floating lam_0, s_0, sn_0, snt_0
@@ -283,9 +283,9 @@ cdef void multilinear_interpolation_4d(floating[:] smin, floating[:] smax,
             output[i] = (1-lam_0)*((1-lam_1)*((1-lam_2)*((1-lam_3)*(v_0000) + (lam_3)*(v_0001)) + (lam_2)*((1-lam_3)*(v_0010) + (lam_3)*(v_0011))) + (lam_1)*((1-lam_2)*((1-lam_3)*(v_0100) + (lam_3)*(v_0101)) + (lam_2)*((1-lam_3)*(v_0110) + (lam_3)*(v_0111)))) + (lam_0)*((1-lam_1)*((1-lam_2)*((1-lam_3)*(v_1000) + (lam_3)*(v_1001)) + (lam_2)*((1-lam_3)*(v_1010) + (lam_3)*(v_1011))) + (lam_1)*((1-lam_2)*((1-lam_3)*(v_1100) + (lam_3)*(v_1101)) + (lam_2)*((1-lam_3)*(v_1110) + (lam_3)*(v_1111))))
 
 
-cdef void multilinear_interpolation_5d(floating[:] smin, floating[:] smax,
-                                       long[:] orders, floating[:] V,
-                                       int n_s, floating[:,::1] s, floating[:] output) noexcept nogil:
+cdef void multilinear_interpolation_5d(const floating[:] smin, const floating[:] smax,
+                                       const long[:] orders, const floating[:] V,
+                                       int n_s, const floating[:,::1] s, floating[:] output) noexcept nogil:
     cdef int i
     cdef floating lam_0, s_0, sn_0, snt_0
     cdef floating lam_1, s_1, sn_1, snt_1
-- 
2.43.0


From 58110320d0d075e301e6d80a3ffda9146abf858e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:06 +0000
Subject: [PATCH 28/31] fix: integer data were truncated when only columns are
 interpolated

---
 geotiepoints/interpolator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotiepoints/interpolator.py b/geotiepoints/interpolator.py
index 902734a..4e46037 100644
--- a/geotiepoints/interpolator.py
+++ b/geotiepoints/interpolator.py
@@ -222,7 +222,7 @@ class Interpolator:
                 raise ValueError("The number of lines of data must match the number of tie rows.")
             self.new_data[num] = np.empty((len(self.hrow_indices),
                                            len(self.hcol_indices)),
-                                          data.dtype)
+                                          data.dtype if np.issubdtype(data.dtype, np.floating) else np.float64)
 
             for cnt in range(lines):
                 tck = splrep(self.col_indices, data[cnt, :], k=self.ky_, s=0)
-- 
2.43.0


From 086f7b92b7c57f688a372d83086d9e4bd9613490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:14 +0000
Subject: [PATCH 29/31] fix: let other processes compute lazy MODIS results
 (the tasks could not be pickled)

---
 geotiepoints/_modis_utils.pyx | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/geotiepoints/_modis_utils.pyx b/geotiepoints/_modis_utils.pyx
index 4a46d10..19b49aa 100644
--- a/geotiepoints/_modis_utils.pyx
+++ b/geotiepoints/_modis_utils.pyx
@@ -1,5 +1,5 @@
 # cython: language_level=3, boundscheck=False, cdivision=True, wraparound=False, initializedcheck=False, nonecheck=False
-from functools import wraps
+from functools import partial, wraps
 
 cimport cython
 cimport numpy as np
@@ -109,7 +109,7 @@ def scanline_mapblocks(func):
             rows_per_scan = rows_per_scan_for_resolution(coarse_resolution)
             rechunked_args = _rechunk_dask_arrays_if_needed(dask_args, rows_per_scan)
             results = _call_map_blocks_interp(
-                func,
+                _wrapper,
                 coarse_resolution,
                 fine_resolution,
                 *rechunked_args,
@@ -204,12 +204,14 @@ def _rechunk_dask_arrays_if_needed(args, rows_per_scan: int):
 
 
 def _map_blocks_handler(func):
-    @wraps(func)
-    def _map_blocks_wrapper(*args, **kwargs):
-        results = func(*args, **kwargs)
-        return np.concatenate(
-            tuple(result[np.newaxis] for result in results),
-            axis=0)
-    return _map_blocks_wrapper
+    # no local function, so that the tasks can be sent to other processes
+    return partial(_stack_results, func)
+
+
+def _stack_results(func, *args, **kwargs):
+    results = func(*args, **kwargs)
+    return np.concatenate(
+        tuple(result[np.newaxis] for result in results),
+        axis=0)
 
 
-- 
2.43.0


From 9bf2d5262dbaf0fa64d57a2b9b7b6e0707a60e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:14 +0000
Subject: [PATCH 30/31] fix: let GeoGridInterpolator and GeoSplineInterpolator
 objects be pickled (their class could not be found)

---
 geotiepoints/geointerpolator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/geotiepoints/geointerpolator.py b/geotiepoints/geointerpolator.py
index 7306180..d6b0bbd 100644
--- a/geotiepoints/geointerpolator.py
+++ b/geotiepoints/geointerpolator.py
@@ -92,6 +92,8 @@ def _work_with_lonlats(klass):
             x, y, z = super().interpolate(fine_points, **interpolator_call_kwargs)
             return xyz2lonlat(x, y, z)
 
+    # the name the class has in this module, so that its objects can be pickled
+    GeoKlass.__name__ = GeoKlass.__qualname__ = klass.__name__.replace("Multiple", "Geo")
     return GeoKlass
 
 
-- 
2.43.0


From 187ef86eb099e7ac401add301961d1adc85ee408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:14 +0000
Subject: [PATCH 31/31] fix: accept labelled arrays in the linear scheme of the
 grid interpolators (AttributeError in scipy)

---
 geotiepoints/interpolator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/geotiepoints/interpolator.py b/geotiepoints/interpolator.py
index 4e46037..1235b7b 100644
--- a/geotiepoints/interpolator.py
+++ b/geotiepoints/interpolator.py
@@ -246,6 +246,9 @@ class AbstractSingleInterpolator(ABC):
         *kwargs* are passed to the underlying scipy interpolator instance.
         So for example, to allow extrapolation, the kwargs can be `bounds_error=False, fill_value=None`.
         """
+        if hasattr(values, "dims"):
+            # scipy's compiled code doesn't take labelled arrays
+            values = values.data
         self.interpolator = scipy_interpolator(points, values, **interpolator_init_kwargs)
         self.points = points
         self.values = values
-- 
2.43.0

