From a16c69ca03a8a264a705049d45bff2b671ef6322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:42 +0000
Subject: [PATCH 01/31] fix: spaceFromGPS decides on the last axis whether the
 gps points have a height

---
 cameratransform/gps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cameratransform/gps.py b/cameratransform/gps.py
index b07d937..e8b9555 100644
--- a/cameratransform/gps.py
+++ b/cameratransform/gps.py
@@ -459,7 +459,7 @@ def moveDistance(start, distance, bearing):
 
 
 def spaceFromGPS(gps, gps0):
-    if len(gps[..., :]) == 2:
+    if gps.shape[-1] == 2:
         height = np.zeros_like(gps[..., 0])
     else:
         height = gps[..., 2]
-- 
2.43.0


From 822b13ca79f9a56350392ec5dc2eb4dce48826a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:42 +0000
Subject: [PATCH 02/31] fix: ray_intersect_triangle returns nan (not inf) for
 rays without intersection

---
 cameratransform/ray.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/cameratransform/ray.py b/cameratransform/ray.py
index 4554e4d..65f25c1 100644
--- a/cameratransform/ray.py
+++ b/cameratransform/ray.py
@@ -86,9 +86,8 @@ def ray_intersect_triangle(origin, direction, triangle, use_planes=False):
         rI[((ti < 0.0) + (si + ti > 1.0)).astype(bool)] = np.nan
 
     def nanargmin(a, axis):
-        mask = np.isnan(a)
-        a[mask] = np.inf
-        res = np.argmin(a, axis=axis)
+        # work on a copy, so that rays without an intersection keep their nan
+        res = np.argmin(np.where(np.isnan(a), np.inf, a), axis=axis)
         return res
 
     index = nanargmin(rI, axis=0)
-- 
2.43.0


From ede2747d0bedd73a0e8e7f2e668038816ad22d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:42 +0000
Subject: [PATCH 03/31] fix: getClosestPointFromLine does not modify the ray of
 the caller

---
 cameratransform/ray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cameratransform/ray.py b/cameratransform/ray.py
index 65f25c1..1e6357b 100644
--- a/cameratransform/ray.py
+++ b/cameratransform/ray.py
@@ -322,7 +322,7 @@ def getClosestPointFromLine(origin, ray, point):
     # calculate the difference vector
     delta = point-origin
     # norm the ray
-    ray /= np.linalg.norm(ray, axis=-1)[..., None]
+    ray = ray / np.linalg.norm(ray, axis=-1)[..., None]
     # calculate the scale product
     factor = np.sum(ray*delta, axis=-1)
     try:
-- 
2.43.0


From bf61e548e68e35aacd1b258349ed5eddf5e90026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:42 +0000
Subject: [PATCH 04/31] fix: intersectionOfTwoLines returns an array also if
 some lines are parallel

---
 cameratransform/ray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cameratransform/ray.py b/cameratransform/ray.py
index 1e6357b..f8be128 100644
--- a/cameratransform/ray.py
+++ b/cameratransform/ray.py
@@ -136,7 +136,7 @@ def intersectionOfTwoLines(p1, v1, p2, v2):
             res = np.linalg.solve(np.array([[a1, b1], [a2, b2]]).transpose(2, 0, 1), np.array([c1, c2]).T[..., None])
             return np.mean([p1 + res[:, 0, 0, None] * v1, p2 + res[:, 1, 0, None] * v2], axis=0)
         except np.linalg.LinAlgError:
-            return [__intersectionOfTwoLines(p1, v1[i], p2, v2[i]) for i in range(len(v1))]
+            return np.array([__intersectionOfTwoLines(p1, v1[i], p2, v2[i]) for i in range(len(v1))])
     else:  # or just one point
         return __intersectionOfTwoLines(p1, v1, p2, v2)
 
-- 
2.43.0


From f0365ae5667f1be89f1085bbac0ca5de642eedf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:42 +0000
Subject: [PATCH 05/31] fix: lens distortions keep the optical center instead
 of returning nan

---
 cameratransform/lens_distortion.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cameratransform/lens_distortion.py b/cameratransform/lens_distortion.py
index 3dc2588..73c4e08 100644
--- a/cameratransform/lens_distortion.py
+++ b/cameratransform/lens_distortion.py
@@ -156,7 +156,7 @@ class BrownLensDistortion(LensDistortion):
         r = np.linalg.norm(points, axis=-1)[..., None]
         # transform the points
         with np.errstate(divide='ignore', invalid='ignore'):
-            points = points / r * self._convert_radius_inverse(r)
+            points = points * np.where(r == 0, 1, self._convert_radius_inverse(r) / r)
         # rescale back to the image
         return points * self.scale + self.offset
 
@@ -168,7 +168,7 @@ class BrownLensDistortion(LensDistortion):
         r = np.linalg.norm(points, axis=-1)[..., None]
         # transform the points
         with np.errstate(divide='ignore', invalid='ignore'):
-            points = points / r * self._convert_radius(r)
+            points = points * np.where(r == 0, 1, self._convert_radius(r) / r)
         # rescale back to the image
         return points * self.scale + self.offset
 
@@ -250,7 +250,7 @@ class ABCDistortion(LensDistortion):
         r = np.linalg.norm(points, axis=-1)[..., None]
         # transform the points
         with np.errstate(divide='ignore', invalid='ignore'):
-            points = points / r * self._convert_radius_inverse(r)
+            points = points * np.where(r == 0, 1, self._convert_radius_inverse(r) / r)
         # rescale back to the image
         return points * self.scale + self.offset
 
@@ -262,6 +262,6 @@ class ABCDistortion(LensDistortion):
         r = np.linalg.norm(points, axis=-1)[..., None]
         # transform the points
         with np.errstate(divide='ignore', invalid='ignore'):
-            points = points / r * self._convert_radius(r)
+            points = points * np.where(r == 0, 1, self._convert_radius(r) / r)
         # rescale back to the image
         return points * self.scale + self.offset
-- 
2.43.0


From ad1f41c8e6ed1fb8c638ae5f6c9d8a7ef9ada1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:42 +0000
Subject: [PATCH 06/31] fix: imageFromCamera does not modify the points of the
 caller

---
 cameratransform/projection.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cameratransform/projection.py b/cameratransform/projection.py
index 67c3425..368305e 100644
--- a/cameratransform/projection.py
+++ b/cameratransform/projection.py
@@ -395,7 +395,7 @@ class RectilinearProjection(CameraProjection):
             x_im = f_x * --- + offset_x      y_im = f_y * --- + offset_y
                           z                                z
         """
-        points = ensure_array_format(points, "...x3")
+        points = np.array(ensure_array_format(points, "...x3"))
         # set small z distances to 0
         points[np.abs(points[..., 2]) < 1e-10] = 0
         x, y, z = points.T
@@ -472,7 +472,7 @@ class CylindricalProjection(CameraProjection):
                                  (-z )                               sqrt(x**2+z**2)
         """
         # ensure that the points are provided as an array
-        points = ensure_array_format(points, "...x3")
+        points = np.array(ensure_array_format(points, "...x3"))
         # set small z distances to 0
         points[np.abs(points[..., 2]) < 1e-10] = 0
         x, y, z = points.T
@@ -550,7 +550,7 @@ class EquirectangularProjection(CameraProjection):
                                ( z )                                    (sqrt(x**2+z**2))
         """
         # ensure that the points are provided as an array
-        points = ensure_array_format(points, "...x3")
+        points = np.array(ensure_array_format(points, "...x3"))
         # set small z distances to 0
         points[np.abs(points[..., 2]) < 1e-10] = 0
         x, y, z = points.T
-- 
2.43.0


From 08b1c79f7e70512e66699fe3118ac5b58ba7ad18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:12 +0000
Subject: [PATCH 07/31] fix: panoramic projections keep x and y of points
 exactly beside the camera

---
 cameratransform/projection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cameratransform/projection.py b/cameratransform/projection.py
index 368305e..23c570a 100644
--- a/cameratransform/projection.py
+++ b/cameratransform/projection.py
@@ -474,7 +474,7 @@ class CylindricalProjection(CameraProjection):
         # ensure that the points are provided as an array
         points = np.array(ensure_array_format(points, "...x3"))
         # set small z distances to 0
-        points[np.abs(points[..., 2]) < 1e-10] = 0
+        points[np.abs(points[..., 2]) < 1e-10, 2] = 0
         x, y, z = points.T
         # transform the points
         with np.errstate(divide='ignore', invalid='ignore'):
@@ -552,7 +552,7 @@ class EquirectangularProjection(CameraProjection):
         # ensure that the points are provided as an array
         points = np.array(ensure_array_format(points, "...x3"))
         # set small z distances to 0
-        points[np.abs(points[..., 2]) < 1e-10] = 0
+        points[np.abs(points[..., 2]) < 1e-10, 2] = 0
         x, y, z = points.T
         # transform the points
         transformed_points = np.array(
-- 
2.43.0


From 28c2a984ddf7b0e36112a27740b7bf8e5fbe0d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:12 +0000
Subject: [PATCH 08/31] fix: image size changes take effect for projections
 defined by a field of view

---
 cameratransform/projection.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cameratransform/projection.py b/cameratransform/projection.py
index 23c570a..bb9f482 100644
--- a/cameratransform/projection.py
+++ b/cameratransform/projection.py
@@ -158,6 +158,9 @@ class CameraProjection(ClassWithParameterSet):
                 if not view_x_deg:
                     focallength_x_px = focallength_y_px
 
+            # these temporary attributes would hide the parameters with the same name
+            del self.image_width_px, self.image_height_px
+
         if focallength_x_px is None or focallength_y_px is None:
             raise ValueError("Either provide a focal length or a field of view angle.")
 
-- 
2.43.0


From 49eb7655577a1299346dcfaa2f41e619ee34b38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:12 +0000
Subject: [PATCH 09/31] fix: accept the documented tuple for focallength_px

---
 cameratransform/projection.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cameratransform/projection.py b/cameratransform/projection.py
index bb9f482..96e8cf3 100644
--- a/cameratransform/projection.py
+++ b/cameratransform/projection.py
@@ -124,8 +124,11 @@ class CameraProjection(ClassWithParameterSet):
             if focallength_mm is not None:
                 raise ValueError("cannot provide both an focallength_mm and a focallength in px")
             if focallength_px:
-                focallength_x_px = focallength_px
-                focallength_y_px = focallength_px
+                try:
+                    focallength_x_px, focallength_y_px = focallength_px
+                except TypeError:
+                    focallength_x_px = focallength_px
+                    focallength_y_px = focallength_px
 
         if sensor and (sensor_width_mm or sensor_height_mm):
             raise ValueError("cannot provide both an sensor shape tuple and sensor_width_mm or sensor_height_mm")
-- 
2.43.0


From edfbd7633a61f6350a2f99a0e2528d5fc4ed33ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:12 +0000
Subject: [PATCH 10/31] fix: sample and set_to_mean leave parameters without a
 distribution unchanged

---
 cameratransform/parameter_set.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cameratransform/parameter_set.py b/cameratransform/parameter_set.py
index 45d9283..ff2e0d3 100644
--- a/cameratransform/parameter_set.py
+++ b/cameratransform/parameter_set.py
@@ -189,7 +189,7 @@ class ClassWithParameterSet(object):
             callbacks = set()
             for name, parameter_obj in self.parameters.parameters.items():
                 parameter_obj.sample()
-                if parameter_obj.callback is not None:
+                if parameter_obj.mean is not None and parameter_obj.callback is not None:
                     callbacks.add(parameter_obj.callback)
             for call in callbacks:
                 call()
@@ -207,7 +207,7 @@ class ClassWithParameterSet(object):
             callbacks = set()
             for name, parameter_obj in self.parameters.parameters.items():
                 parameter_obj.set_to_mean()
-                if parameter_obj.callback is not None:
+                if parameter_obj.mean is not None and parameter_obj.callback is not None:
                     callbacks.add(parameter_obj.callback)
             for call in callbacks:
                 call()
-- 
2.43.0


From 135a2a0ae77c9c2dab27efc40efc6b52331beba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:12 +0000
Subject: [PATCH 11/31] fix: metropolis uses the steps of the additional
 parameters

---
 cameratransform/parameter_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cameratransform/parameter_set.py b/cameratransform/parameter_set.py
index ff2e0d3..d2d6390 100644
--- a/cameratransform/parameter_set.py
+++ b/cameratransform/parameter_set.py
@@ -297,7 +297,7 @@ class ClassWithParameterSet(object):
             start.append(param.value[()])
             ranges.append([param.parents.get("lower"), param.parents.get("upper")])
         start = np.array(start)
-        step = step*np.array([p.step for p in parameter])
+        step = step*np.array([p.step for p in list(parameter)+list(self.additional_parameters)])
 
         def getLogProb(position):
             self.parameters.set_fit_parameters(parameter_names, position[:len(parameter_names)])
-- 
2.43.0


From 44db9f8232c131d999621c16f73618678d845bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:12 +0000
Subject: [PATCH 12/31] fix: metropolis proposals stay inside the ranges when
 the step width is adapted

---
 cameratransform/statistic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cameratransform/statistic.py b/cameratransform/statistic.py
index 6904ee5..a3134af 100644
--- a/cameratransform/statistic.py
+++ b/cameratransform/statistic.py
@@ -105,7 +105,8 @@ def metropolis(getLogProb, start, step=1, iterations=1e5, burn=0.1, prior_trace=
 
             # draw a new position
             # next_pos = last_pos + np.random.normal(0, step*adaptive_scale_factor, N)
-            next_pos = last_pos + adaptive_scale_factor*step*truncnorm((ranges[:,0]-last_pos)/step, (ranges[:,1]-last_pos)/step).rvs()
+            scaled_step = adaptive_scale_factor*step
+            next_pos = last_pos + scaled_step*truncnorm((ranges[:,0]-last_pos)/scaled_step, (ranges[:,1]-last_pos)/scaled_step).rvs()
             # get the probability
             next_prob = getLogProb(list(next_pos) + next_prior_trace)
             # calculate the acceptance ratio
-- 
2.43.0


From 15a135e26ce679ec3580150c81689652e4e67526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:12 +0000
Subject: [PATCH 13/31] fix: fit parameters with a custom distribution can be
 used for fitting

---
 cameratransform/statistic.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cameratransform/statistic.py b/cameratransform/statistic.py
index a3134af..a529d32 100644
--- a/cameratransform/statistic.py
+++ b/cameratransform/statistic.py
@@ -272,6 +272,7 @@ class FitParameter:
     def __init__(self, name, distribution=None, lower=None, upper=None, step=1, value=None, mean=None, std=None):
         self.__name__ = name
         if distribution is not None:
+            self.parents = dict()
             self.distribution = distribution
         elif lower is not None and upper is not None:
             self.parents = dict(lower=lower, upper=upper)
-- 
2.43.0


From 60cc3073094f21eaa7c39c1f9bad7b0da6d9ead6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:12 +0000
Subject: [PATCH 14/31] fix: getCameraParametersFromExif works without the
 sensor database

---
 cameratransform/camera.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index b5d4765..75af6d7 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -153,6 +153,7 @@ def getCameraParametersFromExif(filename: str, verbose: bool = False, sensor_fro
     # get the focal length
     f = exif["FocalLength"][0] / exif["FocalLength"][1]
     # get the sensor size, either from a database
+    sensor_size = None
     if sensor_from_database:
         sensor_size = _getSensorFromDatabase(exif["Model"])
     # or from the exif information
-- 
2.43.0


From 7e06ee749db38d77d9e0d650758999d2ae60bce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:12 +0000
Subject: [PATCH 15/31] fix: loading a camera restores a yaw-pitch-roll
 orientation

---
 cameratransform/camera.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 75af6d7..dc9fb5a 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -26,7 +26,7 @@ from typing import Union, Optional, Tuple, List
 from numbers import Number
 from .parameter_set import ParameterSet, ClassWithParameterSet, Parameter, TYPE_GPS
 from .projection import RectilinearProjection, EquirectangularProjection, CylindricalProjection, CameraProjection
-from .spatial import SpatialOrientation
+from .spatial import SpatialOrientation, SpatialOrientationYawPitchRoll
 from .lens_distortion import NoDistortion, LensDistortion, ABCDistortion, BrownLensDistortion
 from . import gps
 from . import ray
@@ -1583,7 +1583,11 @@ class Camera(ClassWithParameterSet):
             variables.pop("lens")
         else:
             lens = None
-        self.__init__(projection=projection, lens=lens, orientation=SpatialOrientation())
+        if "yaw_deg" in variables.keys():
+            orientation = SpatialOrientationYawPitchRoll()
+        else:
+            orientation = SpatialOrientation()
+        self.__init__(projection=projection, lens=lens, orientation=orientation)
         for key in variables:
             setattr(self, key, variables[key])
 
-- 
2.43.0


From cfea3a62b67b2df88ef767b32ba82bb5566f7041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:12 +0000
Subject: [PATCH 16/31] fix: setGPSpos stores numbers, so that the camera can
 be saved

---
 cameratransform/camera.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index dc9fb5a..71c763f 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -504,7 +504,7 @@ class Camera(ClassWithParameterSet):
         else:
             # if it is a tuple
             try:
-                lat, lon, elevation = gps.splitGPS(lat, keep_deg=True)
+                lat, lon, elevation = [None if x is None else float(x) for x in gps.splitGPS(lat, keep_deg=True)]
             # or if it is just a single value
             except (AttributeError, Exception):
                 pass
-- 
2.43.0


From 0c6ecb29503df50669b9c09d8b1e22f96533e063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:31 +0000
Subject: [PATCH 17/31] fix: getObjectHeight works for objects exactly in x or
 y direction of the camera

---
 cameratransform/camera.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 71c763f..4dc3703 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -1247,6 +1247,10 @@ class Camera(ClassWithParameterSet):
         # get the head positions in the world
         point3D_head1 = self.spaceFromImage(point_heads, Y=point3D_feet[..., 1])
         point3D_head2 = self.spaceFromImage(point_heads, X=point3D_feet[..., 0])
+        # a ray that does not move in x or y direction does not provide an estimate from this coordinate
+        direction = self.getRay(point_heads)[1]
+        point3D_head1 = np.where(np.abs(direction[..., 1:2]) < 1e-10, point3D_head2, point3D_head1)
+        point3D_head2 = np.where(np.abs(direction[..., 0:1]) < 1e-10, point3D_head1, point3D_head2)
         point3D_head = np.mean([point3D_head1, point3D_head2], axis=0)
         # the z difference between these two points
         return point3D_head[..., 2] - point3D_feet[..., 2]
-- 
2.43.0


From 6bb3684fe99f3777e406b68856110f25f77725dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:31 +0000
Subject: [PATCH 18/31] fix: cached top view and undistort maps are
 recalculated when the camera has changed

---
 cameratransform/camera.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 4dc3703..f5d36d3 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -435,10 +435,12 @@ class Camera(ClassWithParameterSet):
     map = None
     last_extent = None
     last_scaling = None
+    last_state = None
 
     map_undistort = None
     last_extent_undistort = None
     last_scaling_undistort = None
+    last_state_undistort = None
 
     R_earth = 6371e3
 
@@ -1282,6 +1284,11 @@ class Camera(ClassWithParameterSet):
         # the z difference between these two points
         return np.linalg.norm(point3D_front - point3D_back, axis=-1)
 
+    def _getParameterState(self):
+        # the current parameters, to check whether a cached map still belongs to them
+        return [type(self.projection), type(self.orientation), type(self.lens),
+                {name: getattr(self, name) for name in self.parameters.parameters}]
+
     def _getUndistortMap(self, extent=None, scaling=None):
         # if no extent is given, take the maximum extent from the image border
         if extent is None:
@@ -1292,8 +1299,10 @@ class Camera(ClassWithParameterSet):
             scaling = 1
 
         # if we have cached the map, use the cached map
+        state = self._getParameterState()
         if self.map_undistort is not None and \
-                self.last_extent_undistort == extent and \
+                self.last_state_undistort == state and \
+                all(self.last_extent_undistort == np.array(extent)) and \
                 self.last_scaling_undistort == scaling:
             return self.map_undistort
 
@@ -1310,8 +1319,9 @@ class Camera(ClassWithParameterSet):
         # reshape the map and cache it
         self.map_undistort = mesh_points_shape.T.reshape(mesh.shape).astype(np.float32)[:, ::-1, :]
 
-        self.last_extent_undistort = extent
+        self.last_extent_undistort = list(extent)
         self.last_scaling_undistort = scaling
+        self.last_state_undistort = state
 
         # return the calculated map
         return self.map_undistort
@@ -1375,7 +1385,9 @@ class Camera(ClassWithParameterSet):
                       np.nanmin(border[:, 1]), np.nanmax(border[:, 1])]
 
         # if we have cached the map, use the cached map
+        state = [self._getParameterState(), Z, hide_backpoints]
         if self.map is not None and \
+                self.last_state == state and \
                 all(self.last_extent == np.array(extent)) and \
                 (self.last_scaling == scaling):
             return self.map
@@ -1399,8 +1411,9 @@ class Camera(ClassWithParameterSet):
         # reshape the map and cache it
         self.map = mesh_points_shape.T.reshape(mesh.shape).astype(np.float32)[:, ::-1, :]
 
-        self.last_extent = extent
+        self.last_extent = list(extent)
         self.last_scaling = scaling
+        self.last_state = state
 
         # return the calculated map
         return self.map
-- 
2.43.0


From c24bbc672b69123185c811bef370fc03abe4b37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:40 +0000
Subject: [PATCH 19/31] fix: gpsFromSpace and spaceFromGPS of a camera are
 inverse to each other (same earth radius)

---
 cameratransform/camera.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index f5d36d3..f531e6f 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -1173,7 +1173,7 @@ class Camera(ClassWithParameterSet):
         points : ndarray
             the points in the **gps** coordinate system, dimensions (3), (Nx3)
         """
-        return gps.gpsFromSpace(points, np.array([self.gps_lat, self.gps_lon, self.elevation_m]))
+        return gps.gpsFromSpace(points, np.array([self.gps_lat, self.gps_lon]))
 
     def spaceFromGPS(self, points: Points3D) -> Points3D:
         """
-- 
2.43.0


From 34abd11f359db47045ebf83b25ad1dfb9f3d21ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:44 +0000
Subject: [PATCH 20/31] fix: extrudeLine covers the whole wall (the two
 triangles overlapped)

---
 cameratransform/ray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cameratransform/ray.py b/cameratransform/ray.py
index f8be128..93b242c 100644
--- a/cameratransform/ray.py
+++ b/cameratransform/ray.py
@@ -296,7 +296,7 @@ def extrudeLine(points, z0, z1):
         point = list(point)
         if last_point is not None:
             mesh.append([point + [z0], last_point + [z0], point + [z1]])
-            mesh.append([point + [z0], last_point + [z0], last_point + [z1]])
+            mesh.append([point + [z1], last_point + [z0], last_point + [z1]])
         last_point = point
     return np.array(mesh)
 
-- 
2.43.0


From a3bcc08382c2398e70873a76e8501bab11ee7dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:39 +0000
Subject: [PATCH 21/31] fix: distanceOfTwoLines recognises parallel lines
 independent of the length of the direction vectors

---
 cameratransform/ray.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/cameratransform/ray.py b/cameratransform/ray.py
index 93b242c..8d74c4a 100644
--- a/cameratransform/ray.py
+++ b/cameratransform/ray.py
@@ -206,19 +206,19 @@ def __distanceOfTwoLines(p1, v1, p2, v2):
     norm_v1_cross_v2 = np.linalg.norm(v1_cross_v2)
 
     # Check if lines are parallel (or coincident)
-    # If the cross product is zero (or very close to zero), the lines are parallel.
-    if np.isclose(norm_v1_cross_v2, 0):
+    # If the cross product is zero (or very close to zero, compared to the length of the vectors), the lines are parallel.
+    norm_v1, norm_v2 = np.linalg.norm(v1), np.linalg.norm(v2)
+    if norm_v1_cross_v2 <= 1e-8 * norm_v1 * norm_v2:
         # Lines are parallel (or coincident).
         # The distance is the shortest distance from a point on one line to the other line.
         # This is given by: d = |(p2 - p1) x v1| / |v1|
-        norm_v1 = np.linalg.norm(v1)
-        if np.isclose(norm_v1, 0):
+        if norm_v1 == 0:
             # This means v1 is a zero vector.
             # If v2 is also zero, we have two points. Distance is between p1 and p2.
-            if np.isclose(np.linalg.norm(v2), 0):
+            if norm_v2 == 0:
                 return np.linalg.norm(p1p2)
             else:  # v1 is zero, v2 is not. p1 is a point, L2 is a line.
-                return np.linalg.norm(np.cross(p1p2, v2)) / np.linalg.norm(v2)
+                return np.linalg.norm(np.cross(p1p2, v2)) / norm_v2
 
         # General case for parallel lines (non-zero direction vectors)
         numerator = np.linalg.norm(np.cross(p1p2, v1))
-- 
2.43.0


From df38bdc7ad4dca432688440fd6fc8e87a6c59b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:14 +0000
Subject: [PATCH 22/31] fix: scaleSpace of a camera group scaled a shared
 orientation once per camera

---
 cameratransform/camera.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index f531e6f..351341b 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -422,8 +422,9 @@ class CameraGroup(ClassWithParameterSet):
             plt.imshow(im2)
 
     def scaleSpace(self, scale):
-        for cam in self:
-            cam.pos_x_m, cam.pos_y_m, cam.elevation_m = np.array([cam.pos_x_m, cam.pos_y_m, cam.elevation_m]) * scale
+        # cameras can share an orientation, which has to be scaled only once
+        for orientation in {id(o): o for o in self.orientation_list}.values():
+            orientation.pos_x_m, orientation.pos_y_m, orientation.elevation_m = np.array([orientation.pos_x_m, orientation.pos_y_m, orientation.elevation_m]) * scale
 
 
 class Camera(ClassWithParameterSet):
-- 
2.43.0


From 8d1f2671dcce369551e242d57d08d6bc6a6403e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:48 +0000
Subject: [PATCH 23/31] fix: lens distortions follow changes of a projection
 shared by several cameras

---
 cameratransform/lens_distortion.py | 31 ++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/cameratransform/lens_distortion.py b/cameratransform/lens_distortion.py
index 73c4e08..97bd924 100644
--- a/cameratransform/lens_distortion.py
+++ b/cameratransform/lens_distortion.py
@@ -141,9 +141,19 @@ class BrownLensDistortion(LensDistortion):
     def _init_inverse(self):
         r = np.arange(0, 2, 0.1)
         self._convert_radius_inverse = invert_function(r, self._convert_radius)
-        if self.projection is not None:
-            self.scale = np.array([self.projection.focallength_x_px, self.projection.focallength_y_px])
-            self.offset = np.array([self.projection.center_x_px, self.projection.center_y_px])
+
+    # scale and offset always follow the projection, which can be shared with the lenses of other cameras
+    @property
+    def scale(self):
+        if self.projection is None:
+            return 1
+        return np.array([self.projection.focallength_x_px, self.projection.focallength_y_px])
+
+    @property
+    def offset(self):
+        if self.projection is None:
+            return np.array([0, 0])
+        return np.array([self.projection.center_x_px, self.projection.center_y_px])
 
     def _convert_radius(self, r):
         return r*(1 + self.parameters.k1*r**2 + self.parameters.k2*r**4 + self.parameters.k3*r**6)
@@ -235,9 +245,18 @@ class ABCDistortion(LensDistortion):
         r = np.arange(0, 2, 0.1)
         self._convert_radius_inverse = invert_function(r, self._convert_radius)
 
-        if self.projection is not None:
-            self.scale = np.min([self.projection.image_width_px, self.projection.image_height_px]) / 2
-            self.offset = np.array([self.projection.center_x_px, self.projection.center_y_px])
+    # scale and offset always follow the projection, which can be shared with the lenses of other cameras
+    @property
+    def scale(self):
+        if self.projection is None:
+            return 1
+        return np.min([self.projection.image_width_px, self.projection.image_height_px]) / 2
+
+    @property
+    def offset(self):
+        if self.projection is None:
+            return np.array([0, 0])
+        return np.array([self.projection.center_x_px, self.projection.center_y_px])
 
     def _convert_radius(self, r):
         return self.d * r + self.c * r**2 + self.b * r**3 + self.a * r**4
-- 
2.43.0


From ce323d3e40e7a95877d52afc877c5bf11825e3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:48 +0000
Subject: [PATCH 24/31] fix: object height and length information accepts one
 variation per object

---
 cameratransform/camera.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 351341b..c28c34a 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -537,7 +537,8 @@ class Camera(ClassWithParameterSet):
             when true, the information will be ignored for fitting and only be used to plot.
         """
         if not only_plot:
-            if not isinstance(variation, (float, int)):
+            # numbers and arrays are used directly, anything else has to be a stochastic variable (e.g. a FitParameter)
+            if hasattr(variation, "value"):
                 self.additional_parameters += [variation]
                 def heigthInformation(points_feet=points_feet, points_head=points_head, height=height,
                                       variation=variation):
@@ -605,7 +606,8 @@ class Camera(ClassWithParameterSet):
             when true, the information will be ignored for fitting and only be used to plot.
         """
         if not only_plot:
-            if not isinstance(variation, (float, int)):
+            # numbers and arrays are used directly, anything else has to be a stochastic variable (e.g. a FitParameter)
+            if hasattr(variation, "value"):
                 self.additional_parameters += [variation]
 
                 def lengthInformation(points_front=points_front, points_back=points_back, length=length,
-- 
2.43.0


From b506d1c3b8be6c0303b1a7fcf92504564da20388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:48 +0000
Subject: [PATCH 25/31] fix: point correspondence information does not hide the
 epipolar lines of rays that start behind the other camera

---
 cameratransform/camera.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index c28c34a..e2d1666 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -256,8 +256,8 @@ class CameraGroup(ClassWithParameterSet):
                 # get the ray from the correspondences in the first camera's image
                 world_epipole, world_ray = self[i].getRay(corresponding[i])
                 # project them to the image of the second camera
-                p1 = self[1 - i].imageFromSpace(world_epipole + world_ray * 1)
-                p2 = self[1 - i].imageFromSpace(world_epipole + world_ray * 2)
+                p1 = self[1 - i].imageFromSpace(world_epipole + world_ray * 1, hide_backpoints=False)
+                p2 = self[1 - i].imageFromSpace(world_epipole + world_ray * 2, hide_backpoints=False)
                 # find the perpendicular point from the epipolar lines to the correspondes point
                 perpendicular_point = ray.getClosestPointFromLine(p1, p2 - p1, corresponding[1 - i])
                 # calculate the distances
-- 
2.43.0


From 7d9938179a97d0cf338af6a2046021c831c3aacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:34 +0000
Subject: [PATCH 26/31] fix: a heading or pitch sampled beyond 360 degrees
 keeps its distribution

---
 cameratransform/spatial.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cameratransform/spatial.py b/cameratransform/spatial.py
index e1ab01c..b0508c4 100644
--- a/cameratransform/spatial.py
+++ b/cameratransform/spatial.py
@@ -106,7 +106,8 @@ class SpatialOrientation(ClassWithParameterSet):
 
     def _initCameraMatrix(self, height=None, tilt_angle=None, roll_angle=None):
         if self.heading_deg < -360 or self.heading_deg > 360:  # pragma: no cover
-            self.heading_deg = self.heading_deg % 360
+            # only the value, to keep the distribution of the parameter
+            self.parameters.parameters["heading_deg"].value = self.heading_deg % 360
         # convert the angle to radians
         tilt = np.deg2rad(self.parameters.tilt_deg)
         roll = np.deg2rad(self.parameters.roll_deg)
@@ -255,7 +256,8 @@ class SpatialOrientationYawPitchRoll(SpatialOrientation):
 
     def _initCameraMatrix(self):
         if self.pitch_deg < -360 or self.pitch_deg > 360:  # pragma: no cover
-            self.pitch_deg = self.pitch_deg % 360
+            # only the value, to keep the distribution of the parameter
+            self.parameters.parameters["pitch_deg"].value = self.pitch_deg % 360
         # convert the angle to radians
         tilt = np.pi/2+np.deg2rad(self.parameters.pitch_deg)
         roll = -np.deg2rad(self.parameters.roll_deg)
-- 
2.43.0


From 5caefe30f371243d5dc716955758486c53834b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:37 +0000
Subject: [PATCH 27/31] fix: gpsFromString understands the documented
 typographic minute mark

---
 cameratransform/gps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cameratransform/gps.py b/cameratransform/gps.py
index e8b9555..8f53109 100644
--- a/cameratransform/gps.py
+++ b/cameratransform/gps.py
@@ -252,8 +252,8 @@ def gpsFromString(gps_string: Union[str, List[str], List[Tuple[str, float]]], he
             return data
         else:
             return np.hstack((data, [height]))
-    regex_list = [r"(?P<deg>[\d+-]+)°\s*(?P<min>\d+)('|′|´|′)\s*(?P<sec>[\d.]+)(''|\"| |´´|″)\s*",
-                  r"(?P<deg>[\d+-]+)°\s*(?P<min>[\d.]+)('|′|´|′)?\s*",
+    regex_list = [r"(?P<deg>[\d+-]+)°\s*(?P<min>\d+)('|′|´|′|’)\s*(?P<sec>[\d.]+)(''|\"| |´´|″)\s*",
+                  r"(?P<deg>[\d+-]+)°\s*(?P<min>[\d.]+)('|′|´|′|’)?\s*",
                   r"(?P<deg>[\d.+-]+)°\s*"]
     for string in regex_list:
         pattern = r"\s*"+string.replace("<", "<lat_")+"(?P<lat_sign>N|S)?"+r"\s*,?\s*"+string.replace("<", "<lon_")+"(?P<lon_sign>W|E)?"+r"\s*"
-- 
2.43.0


From 4d7865b7eb1efd3342d96862912c49d090eccc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:37 +0000
Subject: [PATCH 28/31] fix: formatGPS keeps the sign of coordinates between -1
 and 0 degrees

---
 cameratransform/gps.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cameratransform/gps.py b/cameratransform/gps.py
index 8f53109..feb0987 100644
--- a/cameratransform/gps.py
+++ b/cameratransform/gps.py
@@ -147,6 +147,10 @@ def formatGPS(lat, lon, format=None, asLatex=False):
                 fills.append(values.pop(0))
         # format the string
         string = format % tuple(fills)
+        # integer degrees of 0 would lose the sign
+        if not use_letter and neg and "-" not in fmt_degs % degs:
+            fills[0] = (fmt_degs % -1).replace("1", "0")
+            string = format.replace(fmt_degs, "%s", 1) % tuple(fills)
         # replace, if desired the degree sign
         if asLatex:
             string = string.replace("°", "\N{DEGREE SIGN}")
-- 
2.43.0


From 8936127a058c09cf7e7e1b9de4b05afda827e22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:37 +0000
Subject: [PATCH 29/31] fix: getCameraParametersFromExif reads the rationals of
 current PIL versions

---
 cameratransform/camera.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index e2d1666..81866fa 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -148,10 +148,16 @@ def getCameraParametersFromExif(filename: str, verbose: bool = False, sensor_fro
             ret[decoded] = value
         return ret
 
+    def to_number(value):
+        # depending on the version of PIL rationals are tuples (numerator, denominator) or numbers
+        if isinstance(value, tuple):
+            return value[0] / value[1]
+        return float(value)
+
     # read the exif information of the file
     exif = get_exif(filename)
     # get the focal length
-    f = exif["FocalLength"][0] / exif["FocalLength"][1]
+    f = to_number(exif["FocalLength"])
     # get the sensor size, either from a database
     sensor_size = None
     if sensor_from_database:
@@ -159,8 +165,8 @@ def getCameraParametersFromExif(filename: str, verbose: bool = False, sensor_fro
     # or from the exif information
     if not sensor_size or sensor_size is None:
         sensor_size = (
-            exif["ExifImageWidth"] / (exif["FocalPlaneXResolution"][0] / exif["FocalPlaneXResolution"][1]) * 25.4,
-            exif["ExifImageHeight"] / (exif["FocalPlaneYResolution"][0] / exif["FocalPlaneYResolution"][1]) * 25.4)
+            exif["ExifImageWidth"] / to_number(exif["FocalPlaneXResolution"]) * 25.4,
+            exif["ExifImageHeight"] / to_number(exif["FocalPlaneYResolution"]) * 25.4)
     # get the image size
     image_size = (exif["ExifImageWidth"], exif["ExifImageHeight"])
     # print the output if desired
-- 
2.43.0


From fc0b99604e6ac3fd933fafbd256ce06607e8c6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:11 +0000
Subject: [PATCH 30/31] fix: a focal length given next to a view angle in the
 other direction was overwritten

---
 cameratransform/projection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cameratransform/projection.py b/cameratransform/projection.py
index 96e8cf3..5e4505d 100644
--- a/cameratransform/projection.py
+++ b/cameratransform/projection.py
@@ -152,13 +152,13 @@ class CameraProjection(ClassWithParameterSet):
                 if focallength_x_px is not None:
                     raise ValueError("cannot set both focallength_x_px and view_x_deg")
                 focallength_x_px = self.focallengthFromFOV(view_x=view_x_deg)
-                if not view_y_deg:
+                if not view_y_deg and focallength_y_px is None:
                     focallength_y_px = focallength_x_px
             if view_y_deg:
                 if focallength_y_px:
                     raise ValueError("cannot set both focallength_y_px and view_y_deg")
                 focallength_y_px = self.focallengthFromFOV(view_y=view_y_deg)
-                if not view_x_deg:
+                if not view_x_deg and focallength_x_px is None:
                     focallength_x_px = focallength_y_px
 
             # these temporary attributes would hide the parameters with the same name
-- 
2.43.0


From 96f91467435d41fb23e5571907b3b9db28e4b31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:47 +0000
Subject: [PATCH 31/31] fix: inverse of a strong barrel distortion oscillated
 near the turning point or was lost

---
 cameratransform/lens_distortion.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/cameratransform/lens_distortion.py b/cameratransform/lens_distortion.py
index 97bd924..c2f2070 100644
--- a/cameratransform/lens_distortion.py
+++ b/cameratransform/lens_distortion.py
@@ -25,9 +25,11 @@ def invert_function(x, func):
     from scipy import interpolate
     from scipy.interpolate import dfitpack
     y = func(x)
-    dy = np.concatenate(([0], np.diff(y)))
-    y = y[dy>=0]
-    x = x[dy>=0]
+    # the function can only be inverted up to its first turning point (nodes close to it would make the spline oscillate)
+    flat = np.diff(y) <= 0.1*np.diff(x)
+    if np.any(flat):
+        n = np.argmax(flat) + 1
+        y, x = y[:n], x[:n]
     try:
         inter = interpolate.InterpolatedUnivariateSpline(y, x)
     # dfitpack.error
@@ -139,7 +141,7 @@ class BrownLensDistortion(LensDistortion):
         self._init_inverse()
 
     def _init_inverse(self):
-        r = np.arange(0, 2, 0.1)
+        r = np.arange(0, 2, 0.01)
         self._convert_radius_inverse = invert_function(r, self._convert_radius)
 
     # scale and offset always follow the projection, which can be shared with the lenses of other cameras
@@ -242,7 +244,7 @@ class ABCDistortion(LensDistortion):
 
     def _init_inverse(self):
         self.d = 1 - self.a - self.b - self.c
-        r = np.arange(0, 2, 0.1)
+        r = np.arange(0, 2, 0.01)
         self._convert_radius_inverse = invert_function(r, self._convert_radius)
 
     # scale and offset always follow the projection, which can be shared with the lenses of other cameras
-- 
2.43.0

