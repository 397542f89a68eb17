From 33a38a50d6bcd4502a1761abd8ac1d18befdd881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:58 +0000
Subject: [PATCH 01/29] fix: ETRS89 flattening was inverted and the name could
 not be looked up

---
 src/nvector/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nvector/util.py b/src/nvector/util.py
index f3417b5..0f39476 100644
--- a/src/nvector/util.py
+++ b/src/nvector/util.py
@@ -38,7 +38,7 @@ ELLIPSOID = {
     16: Ellipsoid(a=6378135., f=1.0 / 298.26, name='WGS 72'),
     17: Ellipsoid(a=6378206.4, f=1.0 / 294.9786982138, name='Clarke 1866    (NAD27)'),
     18: Ellipsoid(a=6378137.0, f=1.0 / 298.257223563, name='GRS80 / WGS84  (NAD83)'),
-    19: Ellipsoid(a=6378137, f=298.257222101, name='ETRS89')
+    19: Ellipsoid(a=6378137, f=1.0 / 298.257222101, name='ETRS89')
 }
 ELLIPSOID_IX = {'airy1858': 1,
                 'airymodified': 2,
@@ -68,6 +68,7 @@ ELLIPSOID_IX = {'airy1858': 1,
                 'grs80': 18,
                 'wgs84': 18,
                 'nad83': 18,
+                'etrs89': 19,
                 }
 
 
-- 
2.43.0


From 00d16c7face9db90094f5862fa62c5464eeaeb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:58 +0000
Subject: [PATCH 02/29] fix: great_circle_distance returned an n x n outer
 product for n x n positions

The cosine was computed with a matrix product while the sine was computed
column by column. Both are now computed column by column.
---
 src/nvector/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nvector/core.py b/src/nvector/core.py
index 9e14c76..b35ca95 100644
--- a/src/nvector/core.py
+++ b/src/nvector/core.py
@@ -698,7 +698,7 @@ def great_circle_distance(n_EA_E, n_EB_E, radius=6371009.0):
 
     """
     sin_theta = norm(np.cross(n_EA_E, n_EB_E, axis=0), axis=0)
-    cos_theta = dot(n_EA_E.T, n_EB_E)
+    cos_theta = np.sum(n_EA_E * n_EB_E, axis=0)
     theta = np.arctan2(sin_theta, cos_theta).ravel()
     s_AB = theta * radius
 
-- 
2.43.0


From 86a68616701f3ae7151f972b90026a67025a7b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:58 +0000
Subject: [PATCH 03/29] fix: cross_track_distance mixed path i with position j
 when both are vectors

The result is documented to have length max(n, m), but n paths and n
positions gave n*n distances.
---
 src/nvector/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nvector/core.py b/src/nvector/core.py
index b35ca95..4fcd9dd 100644
--- a/src/nvector/core.py
+++ b/src/nvector/core.py
@@ -557,7 +557,7 @@ def cross_track_distance(path, n_EB_E, method='greatcircle', radius=6371009.0):
 
     """
     c_E = great_circle_normal(path[0], path[1])
-    sin_theta = -np.dot(c_E.T, n_EB_E).ravel()
+    sin_theta = -np.sum(c_E * n_EB_E, axis=0)
     if method[0].lower() == 'e':
         return _euclidean_cross_track_distance(sin_theta, radius)
     return _great_circle_cross_track_distance(sin_theta, radius)
-- 
2.43.0


From b295d4d8e8d678c4677a244fc2e0d7a6c955f838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:58 +0000
Subject: [PATCH 04/29] fix: cross_track_distance was NaN or inaccurate near
 the pole of the great circle

Roundoff can make the sine slightly larger than 1, for which arcsin is NaN.
---
 src/nvector/core.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/nvector/core.py b/src/nvector/core.py
index 4fcd9dd..46ff13c 100644
--- a/src/nvector/core.py
+++ b/src/nvector/core.py
@@ -520,8 +520,10 @@ def _euclidean_cross_track_distance(sin_theta, radius=1):
     return sin_theta * radius
 
 
-def _great_circle_cross_track_distance(sin_theta, radius=1):
-    return np.arcsin(sin_theta) * radius
+def _great_circle_cross_track_distance(sin_theta, cos_theta, radius=1):
+    return arctan2(sin_theta, cos_theta) * radius
+    # ill conditioned for angles near +/-pi/2 and NaN if abs(sin_theta) > 1 due to roundoff:
+    # return np.arcsin(sin_theta) * radius
     # ill conditioned for small angles:
     # return (np.arccos(-sin_theta) - np.pi / 2) * radius
 
@@ -560,7 +562,8 @@ def cross_track_distance(path, n_EB_E, method='greatcircle', radius=6371009.0):
     sin_theta = -np.sum(c_E * n_EB_E, axis=0)
     if method[0].lower() == 'e':
         return _euclidean_cross_track_distance(sin_theta, radius)
-    return _great_circle_cross_track_distance(sin_theta, radius)
+    cos_theta = norm(cross(c_E, n_EB_E, axis=0), axis=0)
+    return _great_circle_cross_track_distance(sin_theta, cos_theta, radius)
 
 
 @use_docstring(_examples.get_examples_no_header([10], OO=False))
-- 
2.43.0


From 1dc2c79ce6df5cfb08ef9d15de6a147b95ac2d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:58 +0000
Subject: [PATCH 05/29] fix: intersect mixed the columns of vectorized paths
 and could return a zero vector

The sign was computed with a matrix product, so the columns were mixed (or the
shapes did not match) for more than one path. The sign was zero, and so was the
returned n-vector, when both solutions are exactly 90 degrees from n_EA1_E.
---
 src/nvector/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nvector/core.py b/src/nvector/core.py
index 46ff13c..a6fa26d 100644
--- a/src/nvector/core.py
+++ b/src/nvector/core.py
@@ -496,7 +496,8 @@ def intersect(path_a, path_b):
     # n_EC_E_tmp is one of two solutions, the other is -n_EC_E_tmp. Select
     # the one that is closet to n_EA1_E, by selecting sign from the dot
     # product between n_EC_E_tmp and n_EA1_E:
-    n_EC_E = np.sign(dot(n_EC_E_tmp.T, n_EA1_E)) * n_EC_E_tmp
+    cos_theta = np.sum(n_EC_E_tmp * n_EA1_E, axis=0)
+    n_EC_E = np.where(cos_theta < 0, -1, 1) * n_EC_E_tmp
     if np.any(np.isnan(n_EC_E)):
         warnings.warn('Paths are Equal. Intersection point undefined. '
                       'NaN returned.')
-- 
2.43.0


From 4056ecdaa9dbe8264b8370badfc1e0205e06fed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:58 +0000
Subject: [PATCH 06/29] fix: closest_point_on_great_circle failed for vectors
 and at the pole of the circle

The sign was computed with a matrix product, so the columns were mixed (or the
shapes did not match) for more than one position. cross(c, cross(b, c)) is
always on the same side as b, so no sign is needed. For b exactly at the pole of
the great circle the result was not on the great circle.
---
 src/nvector/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/nvector/core.py b/src/nvector/core.py
index a6fa26d..e0fe58a 100644
--- a/src/nvector/core.py
+++ b/src/nvector/core.py
@@ -674,8 +674,9 @@ def closest_point_on_great_circle(path, n_EB_E):
     c_E = great_circle_normal(n_EA1_E, n_EA2_E)
 
     c2 = cross(n_EB_E, c_E, axis=0)
-    n_EC_E = unit(cross(c_E, c2, axis=0))
-    return n_EC_E * np.sign(dot(n_EC_E.T, n_EB_E))
+    # All points on the great circle are equally close if B is at its pole: select n_EA1_E
+    at_pole = (norm(c2, axis=0) == 0)
+    return np.where(at_pole, n_EA1_E, unit(cross(c_E, c2, axis=0)))
 
 
 @use_docstring(_examples.get_examples_no_header([5], OO=False))
-- 
2.43.0


From c8bf977cf6dff02c738c5a363d0a2201e72fcbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:58 +0000
Subject: [PATCH 07/29] fix: on_great_circle_path was True for points on the
 far side of long paths

For a path longer than 120 degrees, points on the opposite part of the great
circle can be closer to both endpoints than the endpoints are to each other.
---
 src/nvector/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/nvector/core.py b/src/nvector/core.py
index e0fe58a..b353011 100644
--- a/src/nvector/core.py
+++ b/src/nvector/core.py
@@ -645,7 +645,10 @@ def on_great_circle_path(path, n_EB_E, radius=6371009.0, atol=1e-8):
     scale = norm(n_EA2_E - n_EA1_E, axis=0)
     ti1 = norm(n_EB_E - n_EA1_E, axis=0) / scale
     ti2 = norm(n_EB_E - n_EA2_E, axis=0) / scale
-    return (ti1 <= 1) & (ti2 <= 1) & on_great_circle(path, n_EB_E, radius, atol=atol)
+    # Exclude points on the far side of the Earth (if the path is longer than 120 degrees):
+    same_side = np.sum((n_EA1_E + n_EA2_E) * n_EB_E, axis=0) >= 0
+    return ((ti1 <= 1) & (ti2 <= 1) & same_side
+            & on_great_circle(path, n_EB_E, radius, atol=atol))
 
 
 @use_docstring(_examples.get_examples_no_header([10], OO=False))
-- 
2.43.0


From 3ff5a8004395bb7654b5dc1d43a18db1739828da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:58 +0000
Subject: [PATCH 08/29] fix: n_EA_E_distance_and_azimuth2n_EB_E was wrong at
 the poles for axes='E'

At an exact pole the east direction was taken as the x-axis, which is parallel to
the n-vector when the x-axis points to the North Pole. Use the y-axis, which
n_E2R_EN also selects at the poles.
---
 src/nvector/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/nvector/core.py b/src/nvector/core.py
index b353011..5cc70ff 100644
--- a/src/nvector/core.py
+++ b/src/nvector/core.py
@@ -816,7 +816,10 @@ def n_EA_E_distance_and_azimuth2n_EB_E(n_EA_E, distance_rad, azimuth, R_Ee=None)
     if R_Ee is None:
         R_Ee = E_rotation()
     # Step1: Find unit vectors for north and east:
-    k_east_E = unit(cross(dot(R_Ee.T, [[1], [0], [0]]), n_EA_E, axis=0))
+    east_direction_E = cross(dot(R_Ee.T, [[1], [0], [0]]), n_EA_E, axis=0)
+    on_poles = np.flatnonzero(norm(east_direction_E, axis=0) == 0)
+    k_east_E = unit(east_direction_E)
+    k_east_E[:, on_poles] = dot(R_Ee.T, [[0], [1], [0]])  # same selection as in n_E2R_EN
     k_north_E = cross(n_EA_E, k_east_E, axis=0)
 
     # Step2: Find the initial direction vector d_E:
-- 
2.43.0


From 58e03fd0a99a250b5c2acc8e9aa9c736b3c8c8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:58 +0000
Subject: [PATCH 09/29] fix: GeoPoint.displace(method='greatcircle') ignored
 the axes of the frame

---
 src/nvector/objects.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nvector/objects.py b/src/nvector/objects.py
index b32072f..8b1f30a 100644
--- a/src/nvector/objects.py
+++ b/src/nvector/objects.py
@@ -293,7 +293,8 @@ class GeoPoint(_Common):
         radius = e_a.length
         distance_rad = distance / radius
         azimuth_rad = azimuth if not degrees else rad(azimuth)
-        normal_b = n_EA_E_distance_and_azimuth2n_EB_E(n_a.normal, distance_rad, azimuth_rad)
+        normal_b = n_EA_E_distance_and_azimuth2n_EB_E(n_a.normal, distance_rad, azimuth_rad,
+                                                      R_Ee=self.frame.R_Ee)
         point_b = Nvector(normal_b, self.z, self.frame).to_geo_point()
         azimuth_b = _base_angle(delta_N(point_b, e_a).azimuth - np.pi)
         if degrees:
-- 
2.43.0


From fcddb0108f53160c5a2ece0be5f5c96d43d6ca78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:58 +0000
Subject: [PATCH 10/29] fix: GeoPoint.displace(method='greatcircle') returned
 the reversed azimuth at B

... when the distance is negative or longer than half the circumference.
---
 src/nvector/objects.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/nvector/objects.py b/src/nvector/objects.py
index 8b1f30a..4a8417d 100644
--- a/src/nvector/objects.py
+++ b/src/nvector/objects.py
@@ -296,7 +296,10 @@ class GeoPoint(_Common):
         normal_b = n_EA_E_distance_and_azimuth2n_EB_E(n_a.normal, distance_rad, azimuth_rad,
                                                       R_Ee=self.frame.R_Ee)
         point_b = Nvector(normal_b, self.z, self.frame).to_geo_point()
-        azimuth_b = _base_angle(delta_N(point_b, e_a).azimuth - np.pi)
+        # The shortest way back to A is ahead of B if the displacement is backwards or longer
+        # than half the circumference:
+        behind = np.where(np.sin(distance_rad) < 0, 0, np.pi)
+        azimuth_b = _base_angle(delta_N(point_b, e_a).azimuth - behind)
         if degrees:
             return point_b, deg(azimuth_b)
         return point_b, azimuth_b
-- 
2.43.0


From 0fef061d73f7ddeaabdcfb7ae288b3598a9c4c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:58 +0000
Subject: [PATCH 11/29] fix: GeoPath.track_distance dropped all but the first
 path if radius was given

---
 src/nvector/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nvector/objects.py b/src/nvector/objects.py
index 4a8417d..501496f 100644
--- a/src/nvector/objects.py
+++ b/src/nvector/objects.py
@@ -938,7 +938,7 @@ class GeoPath(object):
 
         distance_fun = euclidean_distance if method[:2] == "eu" else great_circle_distance
         distance = distance_fun(normal_a, normal_b, radius)
-        if np.ndim(radius) == 0:
+        if np.ndim(radius) == 0 and distance.size == 1:
             return distance[0]  # scalar track distance
         return distance
 
-- 
2.43.0


From 120d37a0c9179ab50e22086c659c3c0379e1fcbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:58 +0000
Subject: [PATCH 12/29] fix: FrameE ignored a (or f) unless both were given

FrameE(f=0) was the WGS-84 ellipsoid and not a sphere.
---
 src/nvector/objects.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nvector/objects.py b/src/nvector/objects.py
index 501496f..2a8947a 100644
--- a/src/nvector/objects.py
+++ b/src/nvector/objects.py
@@ -1210,7 +1210,9 @@ class FrameE(_Common):
 
     def __init__(self, a=None, f=None, name='WGS84', axes='e'):
         if a is None or f is None:
-            a, f, _full_name = get_ellipsoid(name)
+            default_a, default_f, _full_name = get_ellipsoid(name)
+            a = default_a if a is None else a
+            f = default_f if f is None else f
         self.a = a
         self.f = f
         self.name = name
-- 
2.43.0


From a6890f3161c2e7185661f366ca3abe58e35970ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:58 +0000
Subject: [PATCH 13/29] fix: comparing positions of incompatible lengths raised
 ValueError

---
 src/nvector/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nvector/objects.py b/src/nvector/objects.py
index 2a8947a..0753d82 100644
--- a/src/nvector/objects.py
+++ b/src/nvector/objects.py
@@ -142,7 +142,7 @@ class _Common(object):
     def __eq__(self, other):
         try:
             return self is other or self._is_equal_to(other, rtol=1e-12, atol=1e-14)
-        except AttributeError:
+        except (AttributeError, ValueError):  # other type of object or incompatible shapes
             return False
 
     def __ne__(self, other):
-- 
2.43.0


From ff92ec67224eb6b083c9af997818621b95c0eb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:58 +0000
Subject: [PATCH 14/29] fix: Nvector.interpolate raised ValueError for scalar
 depth

---
 src/nvector/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nvector/objects.py b/src/nvector/objects.py
index 0753d82..22ae0ec 100644
--- a/src/nvector/objects.py
+++ b/src/nvector/objects.py
@@ -530,7 +530,7 @@ class Nvector(_Common):
         >>> h = plt.plot(lon, lat, 'o', loni, lati, '-')
         >>> plt.show()
         """
-        vectors = np.vstack((self.normal, self.z))
+        vectors = np.vstack((self.normal, np.broadcast_to(self.z, (1, self.normal.shape[1]))))
         vectors_i = _interp_vectors(t_i, t, vectors, kind, window_length, polyorder, mode, cval)
         normal = unit(vectors_i[:3], norm_zero_vector=np.nan)
         return Nvector(normal, z=vectors_i[3], frame=self.frame)
-- 
2.43.0


From 09a3fb01f2d96b535d0bb1bd7c2c9667a3334533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:58 +0000
Subject: [PATCH 15/29] fix: R2xyz and R2zyx returned inconsistent angles at
 and near gimbal lock

x and z were found independently from elements which vanish when y is +/-pi/2, so
the angles did not reproduce the rotation matrix. The error was 5e-8 at 1e-8 rad
from gimbal lock and 2 at gimbal lock.
---
 src/nvector/rotation.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/nvector/rotation.py b/src/nvector/rotation.py
index 5c963d7..10d47f7 100644
--- a/src/nvector/rotation.py
+++ b/src/nvector/rotation.py
@@ -122,8 +122,11 @@ def R2xyz(R_AB):
     --------
     xyz2R, R2zyx, xyz2R
     """
-    z = arctan2(-R_AB[0, 1, ...], R_AB[0, 0, ...])  # atan2: [-pi pi]
-    x = arctan2(-R_AB[1, 2, ...], R_AB[2, 2, ...])
+    x = arctan2(-R_AB[1, 2, ...], R_AB[2, 2, ...])  # atan2: [-pi pi]
+    # z given x is well defined also when only z+x or z-x is determined, i.e., when y is +/-pi/2:
+    sx, cx = sin(x), cos(x)
+    z = arctan2(cx * R_AB[1, 0, ...] + sx * R_AB[2, 0, ...],
+                cx * R_AB[1, 1, ...] + sx * R_AB[2, 1, ...])
 
     sin_y = R_AB[0, 2, ...]
 
-- 
2.43.0


From ac5f4af113f48318a0327aafb48cc7696d73d8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:58 +0000
Subject: [PATCH 16/29] fix: GeoPath.on_path(method='ellipsoid') failed for
 paths going due south

The azimuths pi and -pi were considered to be different directions.
---
 src/nvector/objects.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nvector/objects.py b/src/nvector/objects.py
index 22ae0ec..2734035 100644
--- a/src/nvector/objects.py
+++ b/src/nvector/objects.py
@@ -982,7 +982,8 @@ class GeoPath(object):
         return (isclose(z, point_c.z, rtol=rtol, atol=atol)
                 & (isclose(distance_ac, 0, atol=atol)
                    | ((distance_ab >= distance_ac)
-                      & isclose(azimuth_ac, azimuth_ab, rtol=rtol, atol=atol))))
+                      & isclose(azimuth_ab + _base_angle(azimuth_ac - azimuth_ab), azimuth_ab,
+                                rtol=rtol, atol=atol))))
 
     def on_great_circle(self, point, atol=1e-8):
         """Returns True if point is on the great circle within a tolerance."""
-- 
2.43.0


From 863311b43e08c4ea69cdd251bffec53b36afff3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:58 +0000
Subject: [PATCH 17/29] fix: vectors decomposed in several local frames were
 marked as scalar

length, azimuth and elevation returned only the first element for a single vector
changed to or from a local frame of several positions.
---
 src/nvector/objects.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/nvector/objects.py b/src/nvector/objects.py
index 2734035..a2d834d 100644
--- a/src/nvector/objects.py
+++ b/src/nvector/objects.py
@@ -659,7 +659,8 @@ class Pvector(_Common):
         p_AB_N = self.pvector
         # p_AB_E = np.dot(n_frame.R_EN, p_AB_N)
         p_AB_E = mdot(n_frame.R_EN, p_AB_N[:, None, ...]).reshape(3, -1)
-        return ECEFvector(p_AB_E, frame=n_frame.nvector.frame, scalar=self.scalar)
+        scalar = self.scalar and p_AB_E.shape[1] == 1
+        return ECEFvector(p_AB_E, frame=n_frame.nvector.frame, scalar=scalar)
 
     def to_nvector(self):
         """
@@ -774,7 +775,8 @@ class ECEFvector(Pvector):
         _check_frames(self, frame.nvector)
         p_AB_E = self.pvector
         p_AB_N = mdot(np.swapaxes(frame.R_EN, 1, 0), p_AB_E[:, None, ...])
-        return Pvector(p_AB_N.reshape(3, -1), frame=frame, scalar=self.scalar)
+        p_AB_N = p_AB_N.reshape(3, -1)
+        return Pvector(p_AB_N, frame=frame, scalar=self.scalar and p_AB_N.shape[1] == 1)
 
     def to_ecef_vector(self):
         return self
-- 
2.43.0


From 8f58a6ace2ed146c34e5903e64b3efd79aa2fb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:58 +0000
Subject: [PATCH 18/29] fix: nthroot raised ZeroDivisionError for python scalar
 zero

---
 src/nvector/util.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nvector/util.py b/src/nvector/util.py
index 0f39476..2c06e4b 100644
--- a/src/nvector/util.py
+++ b/src/nvector/util.py
@@ -409,6 +409,7 @@ def nthroot(x, n):
     True
 
     """
+    x = np.asarray(x)
     y = x**(1. / n)
     return np.where((x != 0) & (_EPS * np.abs(x) < 1),
                     y - (y**n - x) / (n * y**(n - 1)), y)
-- 
2.43.0


From 62f702c0ce530008cef0ac56018ffb01b103ee4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:58 +0000
Subject: [PATCH 19/29] fix: E_rotation returned the shared matrix, so a caller
 could change all frames

---
 src/nvector/rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nvector/rotation.py b/src/nvector/rotation.py
index 10d47f7..8efd770 100644
--- a/src/nvector/rotation.py
+++ b/src/nvector/rotation.py
@@ -80,7 +80,7 @@ def E_rotation(axes='e'):
     The Journal of Navigation, Volume 63, Issue 03, pp 395-417, July 2010.
     <www.navlab.net/Publications/A_Nonsingular_Horizontal_Position_Representation.pdf>`_
     """
-    return E_ROTATION_MATRIX[axes]
+    return E_ROTATION_MATRIX[axes].copy()
 
 
 def R2xyz(R_AB):
-- 
2.43.0


From ac25b0b4e497a0ec09015290f4b05b9003ee4b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:58 +0000
Subject: [PATCH 20/29] fix: closest_point_on_path depended on the unit of
 length

The closest point on the great circle had to be within 1e-8 m of the great circle,
which is less than the roundoff error for a large Earth radius.
---
 src/nvector/objects.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nvector/objects.py b/src/nvector/objects.py
index a2d834d..8d39ef0 100644
--- a/src/nvector/objects.py
+++ b/src/nvector/objects.py
@@ -1149,7 +1149,8 @@ class GeoPath(object):
 
     def _closest_point_on_path(self, point):
         point_c = self._closest_point_on_great_circle(point)
-        if self.on_path(point_c):
+        # point_c is on the great circle by construction, so only check the extent of the path:
+        if self._on_great_circle_path(point_c, atol=np.inf):
             return point_c.to_geo_point()
         n0 = point.to_nvector().normal
         n1, n2 = self.nvector_normals()
-- 
2.43.0


From 185c301375be870d633656edbdf6a83c88bb4371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:44 +0000
Subject: [PATCH 21/29] fix: great_circle_normal was inaccurate for short
 paths, so end points were reported off the path

---
 src/nvector/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/nvector/core.py b/src/nvector/core.py
index 5cc70ff..ed2ea7f 100644
--- a/src/nvector/core.py
+++ b/src/nvector/core.py
@@ -514,7 +514,10 @@ def great_circle_normal(n_EA_E, n_EB_E):
         n-vector(s) [no unit] of position A and B, decomposed in E.
 
     """
-    return unit(cross(n_EA_E, n_EB_E, axis=0), norm_zero_vector=np.nan)
+    # The difference and the sum are orthogonal (for unit vectors) and, contrary to n_EA_E x n_EB_E,
+    # their cross product is accurate also when A and B are close to each other or antipodal.
+    normal = cross(n_EA_E - n_EB_E, n_EA_E + n_EB_E, axis=0)
+    return unit(normal, norm_zero_vector=np.nan)
 
 
 def _euclidean_cross_track_distance(sin_theta, radius=1):
-- 
2.43.0


From 1f5d913a4bfdc4d718aa89551517d1f9b530570b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:46 +0000
Subject: [PATCH 22/29] fix: intersect was inaccurate for short paths

---
 src/nvector/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nvector/core.py b/src/nvector/core.py
index ed2ea7f..8d08f2c 100644
--- a/src/nvector/core.py
+++ b/src/nvector/core.py
@@ -489,8 +489,8 @@ def intersect(path_a, path_b):
     n_EA1_E, n_EA2_E = path_a
     n_EB1_E, n_EB2_E = path_b
     # Find the intersection between the two paths, n_EC_E:
-    n_EC_E_tmp = unit(cross(cross(n_EA1_E, n_EA2_E, axis=0),
-                            cross(n_EB1_E, n_EB2_E, axis=0), axis=0),
+    n_EC_E_tmp = unit(cross(great_circle_normal(n_EA1_E, n_EA2_E),
+                            great_circle_normal(n_EB1_E, n_EB2_E), axis=0),
                       norm_zero_vector=np.nan)
 
     # n_EC_E_tmp is one of two solutions, the other is -n_EC_E_tmp. Select
-- 
2.43.0


From 33fd068e155e4ab9b691a073441f571f5d39ea89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:10 +0000
Subject: [PATCH 23/29] fix: on_path(method='ellipsoid') measured the two
 distances at different depths

---
 src/nvector/objects.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/nvector/objects.py b/src/nvector/objects.py
index 8d39ef0..27a1988 100644
--- a/src/nvector/objects.py
+++ b/src/nvector/objects.py
@@ -978,9 +978,12 @@ class GeoPath(object):
     def _on_ellipsoid_path(self, point, rtol=1e-6, atol=1e-8):
         point_a, point_b = self.geo_points()
         point_c = point.to_geo_point()
+        _check_frames(point_a, point_c)
         z = (point_a.z + point_b.z) * 0.5
         distance_ab, azimuth_ab, _azi_ba = point_a.distance_and_azimuth(point_b)
-        distance_ac, azimuth_ac, _azi_ca = point_a.distance_and_azimuth(point_c)
+        # Both distances are measured at the mean depth of the path
+        distance_ac, azimuth_ac, _azi_ca = point_a.frame.inverse(
+            point_a.latitude, point_a.longitude, point_c.latitude, point_c.longitude, z)
         return (isclose(z, point_c.z, rtol=rtol, atol=atol)
                 & (isclose(distance_ac, 0, atol=atol)
                    | ((distance_ab >= distance_ac)
-- 
2.43.0


From 7c2d1069343954cd96ed7cd3846a435983e4b53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:07 +0000
Subject: [PATCH 24/29] fix: == raised TypeError for objects with non-numeric
 coordinates

---
 src/nvector/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nvector/objects.py b/src/nvector/objects.py
index 27a1988..d1423ad 100644
--- a/src/nvector/objects.py
+++ b/src/nvector/objects.py
@@ -142,7 +142,7 @@ class _Common(object):
     def __eq__(self, other):
         try:
             return self is other or self._is_equal_to(other, rtol=1e-12, atol=1e-14)
-        except (AttributeError, ValueError):  # other type of object or incompatible shapes
+        except (AttributeError, TypeError, ValueError):  # other type of object or incompatible shapes
             return False
 
     def __ne__(self, other):
-- 
2.43.0


From 710408f81a9815e6d24a2afd7ab06bfcc5b2d04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:35 +0000
Subject: [PATCH 25/29] fix: get_ellipsoid did not know four of the names it
 documents as valid options

---
 src/nvector/util.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/nvector/util.py b/src/nvector/util.py
index 2c06e4b..37dab3c 100644
--- a/src/nvector/util.py
+++ b/src/nvector/util.py
@@ -55,19 +55,23 @@ ELLIPSOID_IX = {'airy1858': 1,
                 'international': 11,
                 'hayford': 11,
                 'ed50': 11,
+                'international(hayford)/europeandatum(ed50)': 11,
                 'krassovsky': 12,
                 'krassovsky1938': 12,
                 'nwl-9d': 13,
                 'wgs66': 13,
+                'nwl-9d(wgs66)': 13,
                 'southamerican1969': 14,
                 'sad69': 14,
                 'sovietgeod.system1985': 15,
                 'wgs72': 16,
                 'clarke1866': 17,
                 'nad27': 17,
+                'clarke1866(nad27)': 17,
                 'grs80': 18,
                 'wgs84': 18,
                 'nad83': 18,
+                'grs80/wgs84(nad83)': 18,
                 'etrs89': 19,
                 }
 
-- 
2.43.0


From 8d90fe47105d4a271f0205b7d277d01a9b107f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:28 +0000
Subject: [PATCH 26/29] fix: direct great circle problem near a pole of other
 axes gave vectors of wrong length

---
 src/nvector/core.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/nvector/core.py b/src/nvector/core.py
index 8d08f2c..805c6a5 100644
--- a/src/nvector/core.py
+++ b/src/nvector/core.py
@@ -819,14 +819,16 @@ def n_EA_E_distance_and_azimuth2n_EB_E(n_EA_E, distance_rad, azimuth, R_Ee=None)
     if R_Ee is None:
         R_Ee = E_rotation()
     # Step1: Find unit vectors for north and east:
-    east_direction_E = cross(dot(R_Ee.T, [[1], [0], [0]]), n_EA_E, axis=0)
-    on_poles = np.flatnonzero(norm(east_direction_E, axis=0) == 0)
-    k_east_E = unit(east_direction_E)
-    k_east_E[:, on_poles] = dot(R_Ee.T, [[0], [1], [0]])  # same selection as in n_E2R_EN
-    k_north_E = cross(n_EA_E, k_east_E, axis=0)
+    # (in the axes of e, where cross does not lose the digits near the poles)
+    n_EA_e = dot(R_Ee, n_EA_E)
+    east_direction_e = cross([[1], [0], [0]], n_EA_e, axis=0)
+    on_poles = np.flatnonzero(norm(east_direction_e, axis=0) == 0)
+    k_east_e = unit(east_direction_e)
+    k_east_e[:, on_poles] = [[0], [1], [0]]  # same selection as in n_E2R_EN
+    k_north_e = cross(n_EA_e, k_east_e, axis=0)
 
     # Step2: Find the initial direction vector d_E:
-    d_E = k_north_E * cos(azimuth) + k_east_E * sin(azimuth)
+    d_E = dot(R_Ee.T, k_north_e * cos(azimuth) + k_east_e * sin(azimuth))
 
     # Step3: Find n_EB_E:
     n_EB_E = n_EA_E * cos(distance_rad) + d_E * sin(distance_rad)
-- 
2.43.0


From 84bdeb8aab25260c5bf4377dbea5eed1c456c408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:04 +0000
Subject: [PATCH 27/29] fix: on_path(method='ellipsoid') used the absolute
 tolerance, a length, as an angle

---
 src/nvector/objects.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/nvector/objects.py b/src/nvector/objects.py
index d1423ad..158547b 100644
--- a/src/nvector/objects.py
+++ b/src/nvector/objects.py
@@ -984,11 +984,12 @@ class GeoPath(object):
         # Both distances are measured at the mean depth of the path
         distance_ac, azimuth_ac, _azi_ca = point_a.frame.inverse(
             point_a.latitude, point_a.longitude, point_c.latitude, point_c.longitude, z)
+        # The absolute tolerance is a length, not an angle
+        deviation = distance_ac * np.abs(_base_angle(azimuth_ac - azimuth_ab))
         return (isclose(z, point_c.z, rtol=rtol, atol=atol)
                 & (isclose(distance_ac, 0, atol=atol)
                    | ((distance_ab >= distance_ac)
-                      & isclose(azimuth_ab + _base_angle(azimuth_ac - azimuth_ab), azimuth_ab,
-                                rtol=rtol, atol=atol))))
+                      & (deviation <= np.maximum(atol, rtol * distance_ac)))))
 
     def on_great_circle(self, point, atol=1e-8):
         """Returns True if point is on the great circle within a tolerance."""
-- 
2.43.0


From d154f1f5b4d0f4f206dd3e6b9cbce3fe79354837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:49 +0000
Subject: [PATCH 28/29] fix: import when docstrings are stripped (python -OO)

---
 src/nvector/_info.py    | 12 ++++++------
 src/nvector/core.py     |  4 ++--
 src/nvector/objects.py  |  4 ++--
 src/nvector/rotation.py |  4 ++--
 src/nvector/util.py     |  4 ++--
 5 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/nvector/_info.py b/src/nvector/_info.py
index 4a5131f..254e7e3 100644
--- a/src/nvector/_info.py
+++ b/src/nvector/_info.py
@@ -8,14 +8,14 @@ from nvector import (_intro,
 __doc__ = (  # @ReservedAssignment
     """Introduction to nvector
 =======================
-""" + _intro.__doc__  # @UndefinedVariable @ReservedAssignment
-    + _documentation.__doc__  # @UndefinedVariable
-    + _installation.__doc__  # @UndefinedVariable
-    + _examples_object_oriented.__doc__
+""" + (_intro.__doc__ or "")  # @UndefinedVariable @ReservedAssignment
+    + (_documentation.__doc__ or "")  # @UndefinedVariable
+    + (_installation.__doc__ or "")  # @UndefinedVariable
+    + (_examples_object_oriented.__doc__ or "")
     + """Acknowledgements
 ================
-""" + _acknowledgements.__doc__  # @UndefinedVariable
-    + _images.__doc__)  # @UndefinedVariable
+""" + (_acknowledgements.__doc__ or "")  # @UndefinedVariable
+    + (_images.__doc__ or ""))  # @UndefinedVariable
 
 
 if __name__ == '__main__':
diff --git a/src/nvector/core.py b/src/nvector/core.py
index 805c6a5..0a522bc 100644
--- a/src/nvector/core.py
+++ b/src/nvector/core.py
@@ -864,10 +864,10 @@ def mean_horizontal_position(n_EB_E):
 
 
 _odict = globals()
-__doc__ = (__doc__  # @ReservedAssignment
+__doc__ = ((__doc__ or '')  # @ReservedAssignment
            + _make_summary(dict((n, _odict[n]) for n in __all__))
            + 'License\n-------\n'
-           + _license.__doc__)
+           + (_license.__doc__ or ''))
 
 
 if __name__ == "__main__":
diff --git a/src/nvector/objects.py b/src/nvector/objects.py
index 158547b..606c2ad 100644
--- a/src/nvector/objects.py
+++ b/src/nvector/objects.py
@@ -1563,10 +1563,10 @@ def _default_frame(frame):
 
 
 _ODICT = globals()
-__doc__ = (__doc__  # @ReservedAssignment
+__doc__ = ((__doc__ or '')  # @ReservedAssignment
            + _make_summary(dict((n, _ODICT[n]) for n in __all__))
            + 'License\n-------\n'
-           + _license.__doc__)
+           + (_license.__doc__ or ''))
 
 
 if __name__ == "__main__":
diff --git a/src/nvector/rotation.py b/src/nvector/rotation.py
index 8efd770..4a0e194 100644
--- a/src/nvector/rotation.py
+++ b/src/nvector/rotation.py
@@ -514,10 +514,10 @@ def n_E_and_wa2R_EL(n_E, wander_azimuth, R_Ee=None):
 
 
 _odict = globals()
-__doc__ = (__doc__  # @ReservedAssignment
+__doc__ = ((__doc__ or '')  # @ReservedAssignment
            + _make_summary(dict((n, _odict[n]) for n in __all__))
            + 'License\n-------\n'
-           + _license.__doc__)
+           + (_license.__doc__ or ''))
 
 
 if __name__ == "__main__":
diff --git a/src/nvector/util.py b/src/nvector/util.py
index 37dab3c..e3b1221 100644
--- a/src/nvector/util.py
+++ b/src/nvector/util.py
@@ -517,10 +517,10 @@ def unit(vector, norm_zero_vector=1):
 
 
 _odict = globals()
-__doc__ = (__doc__  # @ReservedAssignment
+__doc__ = ((__doc__ or '')  # @ReservedAssignment
            + _make_summary(dict((n, _odict[n]) for n in __all__))
            + 'License\n-------\n'
-           + _license.__doc__)
+           + (_license.__doc__ or ''))
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 1aa7bd2fb6b659ce8cdb8d7497ab44bcc366609b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:51 +0000
Subject: [PATCH 29/29] fix: invalid escape sequence in docstring of
 _base_angle

---
 src/nvector/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nvector/objects.py b/src/nvector/objects.py
index 606c2ad..1fc9a3f 100644
--- a/src/nvector/objects.py
+++ b/src/nvector/objects.py
@@ -82,7 +82,7 @@ diff_positions = np.deprecate(delta_E, old_name='diff_positions', new_name='delt
 
 
 def _base_angle(angle_rad):
-    """Returns angle so it is between $-\pi$ and $\pi$"""
+    r"""Returns angle so it is between $-\pi$ and $\pi$"""
     return np.mod(angle_rad + np.pi, 2*np.pi) - np.pi
 
 
-- 
2.43.0

