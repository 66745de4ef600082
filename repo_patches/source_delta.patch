From 06bd30835b46a3d205889038c37e2b2684228cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:18 +0000
Subject: [PATCH 01/18] fix: azimuthal component in spherical_to_cartesian
 vector transform

The azimuthal unit vector is (-sin(phi), cos(phi), 0).
---
 geoana/spatial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geoana/spatial.py b/geoana/spatial.py
index 01e1f03..ff7402d 100644
--- a/geoana/spatial.py
+++ b/geoana/spatial.py
@@ -303,7 +303,7 @@ def spherical_to_cartesian(grid, vec=None):
 
     y = (
         vec[..., 0] * np.sin(theta) * np.sin(phi) +
-        vec[..., 1] * np.cos(theta) +
+        vec[..., 1] * np.cos(phi) +
         vec[..., 2] * np.cos(theta) * np.sin(phi)
     )
 
-- 
2.43.0


From 07f05480a0715a6969f776e8b1e29e5812d3a9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:18 +0000
Subject: [PATCH 02/18] fix: do not overwrite the azimuth in
 cartesian_to_spherical vector transform

The polar component was computed with the azimuthal vector component in place
of the azimuth angle.
---
 geoana/spatial.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geoana/spatial.py b/geoana/spatial.py
index ff7402d..1424855 100644
--- a/geoana/spatial.py
+++ b/geoana/spatial.py
@@ -397,15 +397,15 @@ def cartesian_to_spherical(grid, vec=None):
         vec[..., 2] * np.cos(theta)
     )
 
-    phi = - vec[..., 0] * np.sin(phi) + vec[..., 1] * np.cos(phi)
+    v_phi = - vec[..., 0] * np.sin(phi) + vec[..., 1] * np.cos(phi)
 
-    theta = (
+    v_theta = (
         vec[..., 0] * np.cos(theta) * np.cos(phi) +
         vec[..., 1] * np.cos(theta) * np.sin(phi) -
         vec[..., 2] * np.sin(theta)
     )
 
-    return np.stack([r, phi, theta], axis=-1)
+    return np.stack([r, v_phi, v_theta], axis=-1)
 
 
 def vector_magnitude(v):
-- 
2.43.0


From 08f56e48041d9e31ae295963a57a83f66cc99e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:18 +0000
Subject: [PATCH 03/18] fix: rotation between anti-parallel directions

For v1 = -k * v0 the normalised vectors are anti-parallel only up to round-off,
so their cross product is larger than the tolerance but carries no direction and
the returned rotation did not map v0 onto v1.
---
 geoana/spatial.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/geoana/spatial.py b/geoana/spatial.py
index 1424855..35a8411 100644
--- a/geoana/spatial.py
+++ b/geoana/spatial.py
@@ -605,7 +605,10 @@ def rotation_matrix_from_normals(v0, v1, tol=1e-20, as_matrix=True):
     # define the rotation axis, which is the cross product of the two vectors
     rotation_axis = np.cross(v0, v1)
 
-    if np.linalg.norm(rotation_axis) < tol:
+    w = 1 + v0dotv1
+
+    # the cross product of (nearly) anti-parallel vectors is only round-off
+    if np.linalg.norm(rotation_axis) < tol or w < 8 * np.finfo(float).eps:
         # check if vectors were anti-parallel.
         if v0dotv1 < 0:
             # find another vector that is perpendicular to v1,
@@ -616,6 +619,7 @@ def rotation_matrix_from_normals(v0, v1, tol=1e-20, as_matrix=True):
                 rotation_axis = trial
             else:
                 rotation_axis = np.cross(v0, np.array([0., 1., 0.]))
+            w = 0.0
         else:
             mat = np.eye(3, dtype=float)
             if as_matrix:
@@ -623,8 +627,6 @@ def rotation_matrix_from_normals(v0, v1, tol=1e-20, as_matrix=True):
             else:
                 return Rotation.from_matrix(mat)
 
-
-    w = 1 + v0dotv1
     rot = Rotation.from_quat(np.r_[rotation_axis, w])
 
     if as_matrix:
-- 
2.43.0


From 354f58de19b87217f58ce512b5bfaa85ff4f7264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:25 +0000
Subject: [PATCH 04/18] fix: near-axis series of the circular loop vector
 potential

The third-order term is 3 a^2 (a^2 - 4 z^2) rho^3 / (32 (a^2 + z^2)^(7/2)); dividing by
(a^2 - 4 z^2) gave wrong values near the axis and infinities at z = +-a/2.
---
 geoana/em/static/wholespace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geoana/em/static/wholespace.py b/geoana/em/static/wholespace.py
index 5c6058b..09b9068 100644
--- a/geoana/em/static/wholespace.py
+++ b/geoana/em/static/wholespace.py
@@ -606,7 +606,7 @@ class CircularLoopWholeSpace(BaseEM, BaseDipole):
                 # A(rho=0) = 0
                 rho[small_rho] * a**2 / (4 * temp**3) +  # rho * A'(rho=0)
                 # A''(rho=0) = 0
-                rho[small_rho]**3 * 3 * a**2 / ( a ** 2 - 4 * z[small_rho]**2) / (
+                rho[small_rho]**3 * 3 * a**2 * ( a ** 2 - 4 * z[small_rho]**2) / (
                     32 * np.sqrt(a**2 + z[small_rho]**2)**7
                 )
         )
-- 
2.43.0


From 2317e72a4411f25da66f2fc30a73eef94027f7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:41 +0000
Subject: [PATCH 05/18] fix: do not normalise the caller's orientation array in
 place

---
 geoana/em/base.py            | 2 +-
 geoana/em/fdem/wholespace.py | 2 +-
 geoana/em/tdem/wholespace.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/geoana/em/base.py b/geoana/em/base.py
index 4a5792b..2bcd8d2 100644
--- a/geoana/em/base.py
+++ b/geoana/em/base.py
@@ -219,7 +219,7 @@ class BaseDipole:
                 )
 
             # Normalize the orientation
-            var /= np.linalg.norm(var)
+            var = var / np.linalg.norm(var)
 
         self._orientation = var
 
diff --git a/geoana/em/fdem/wholespace.py b/geoana/em/fdem/wholespace.py
index 851156e..d2430e5 100644
--- a/geoana/em/fdem/wholespace.py
+++ b/geoana/em/fdem/wholespace.py
@@ -998,7 +998,7 @@ class HarmonicPlaneWave(BaseFDEM):
                 )
 
             # Normalize the orientation
-            var /= np.linalg.norm(var)
+            var = var / np.linalg.norm(var)
 
         self._orientation = var
 
diff --git a/geoana/em/tdem/wholespace.py b/geoana/em/tdem/wholespace.py
index 8a56ba2..94115ca 100644
--- a/geoana/em/tdem/wholespace.py
+++ b/geoana/em/tdem/wholespace.py
@@ -675,7 +675,7 @@ class TransientPlaneWave(BaseTDEM):
                 )
 
             # Normalize the orientation
-            var /= np.linalg.norm(var)
+            var = var / np.linalg.norm(var)
 
         self._orientation = var
 
-- 
2.43.0


From b5734c40e95d887a4a8693206395a0fa8649175a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:41 +0000
Subject: [PATCH 06/18] fix: line current nodes do not alias the caller's array

PointCurrentWholeSpace.location writes into the nodes in place, which modified the
array the source was created with.
---
 geoana/em/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geoana/em/base.py b/geoana/em/base.py
index 2bcd8d2..b08d0bb 100644
--- a/geoana/em/base.py
+++ b/geoana/em/base.py
@@ -475,7 +475,7 @@ class BaseLineCurrent:
     def nodes(self, xyz):
 
         try:
-            xyz = np.asarray(xyz, dtype=np.float64)
+            xyz = np.array(xyz, dtype=np.float64)
         except:
             raise TypeError(f"nodes must be array_like, got {type(xyz)}")
         xyz = np.atleast_2d(xyz)
-- 
2.43.0


From b1952f960e1379e0ad4135272119e5e95ba9971b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:00 +0000
Subject: [PATCH 07/18] fix: sign of the magnetic scalar potential of a prism

The field is minus the gradient of the magnetic scalar potential, as for the other
static sources; the potential was returned with the opposite sign.
---
 geoana/em/static/freespace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geoana/em/static/freespace.py b/geoana/em/static/freespace.py
index 810efea..15a0b6f 100644
--- a/geoana/em/static/freespace.py
+++ b/geoana/em/static/freespace.py
@@ -89,7 +89,7 @@ class MagneticPrism(BasePrism):
         gy = self._eval_def_int(prism_fz, xyz[..., 0], xyz[..., 1], xyz[..., 2], cycle=2)
         gz = self._eval_def_int(prism_fz, xyz[..., 0], xyz[..., 1], xyz[..., 2])
 
-        return -1.0/(4 * np.pi) * (gx * m_x + gy * m_y + gz * m_z)
+        return 1.0/(4 * np.pi) * (gx * m_x + gy * m_y + gz * m_z)
 
     def magnetic_field(self, xyz):
         """
-- 
2.43.0


From a026e5b915ce5318696c1d05127f9fe8684e13e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:07 +0000
Subject: [PATCH 08/18] fix: secondary field outside a sphere in a uniform
 field

---
 geoana/em/static/sphere.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geoana/em/static/sphere.py b/geoana/em/static/sphere.py
index 1e2182a..d926076 100644
--- a/geoana/em/static/sphere.py
+++ b/geoana/em/static/sphere.py
@@ -335,7 +335,7 @@ class ElectrostaticSphere:
 
         # total field outside the sphere
         Et[ind0] = E0 * (1. - sig_cur * self.radius ** 3. / r[ind0, None] ** 3) +\
-            3. * (r_vec[ind0] @ E0)[..., None] * sig_cur * self.radius * r_vec[ind0] / r[ind0, None] ** 4
+            3. * (r_vec[ind0] @ E0)[..., None] * sig_cur * self.radius ** 3. * r_vec[ind0] / r[ind0, None] ** 5
 
         # inside the sphere
         Et[~ind0] = 3. * sig0 / (sig1 + 2. * sig0) * E0
@@ -835,7 +835,7 @@ class MagnetostaticSphere:
 
         # total field outside the sphere
         Ht[ind0] = H0 * (1. - mu_cur * self.radius ** 3. / r[ind0, None] ** 3) +\
-            3. * (r_vec[ind0] @ H0)[..., None] * mu_cur * self.radius * r_vec[ind0] / r[ind0, None] ** 4
+            3. * (r_vec[ind0] @ H0)[..., None] * mu_cur * self.radius ** 3. * r_vec[ind0] / r[ind0, None] ** 5
 
         # inside the sphere
         Ht[~ind0] = 3. * mu0 / (mu1 + 2. * mu0) * H0
-- 
2.43.0


From b34c2a95fa5b23309a247b3bf04f47ae82db5e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:12 +0000
Subject: [PATCH 09/18] fix: single frequency in the half-space magnetic dipole

---
 geoana/em/fdem/halfspace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geoana/em/fdem/halfspace.py b/geoana/em/fdem/halfspace.py
index dce8a39..0b373e2 100644
--- a/geoana/em/fdem/halfspace.py
+++ b/geoana/em/fdem/halfspace.py
@@ -95,7 +95,7 @@ class MagneticDipoleHalfSpace(BaseFDEM, BaseMagneticDipole):
         y = dxy[..., 1]
 
         for dim in range(r.ndim):
-            k = k[:, None]
+            k = k[..., None]
 
         em_x = em_y = em_z = 0
         src_x, src_y, src_z = self.orientation
-- 
2.43.0


From e79536186a9584cbbc4927a27c0ef3d6ecdbc25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:45 +0000
Subject: [PATCH 10/18] fix: local_rigidity can be read back

---
 geoana/earthquake/oksar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geoana/earthquake/oksar.py b/geoana/earthquake/oksar.py
index 109d92e..65d7d06 100644
--- a/geoana/earthquake/oksar.py
+++ b/geoana/earthquake/oksar.py
@@ -399,7 +399,7 @@ class EarthquakeInterferogram:
         except:
             raise TypeError("local_rigidity must be a float")
 
-        self._rigidity = var
+        self._local_rigidity = var
 
     @property
     def processed_by(self):
-- 
2.43.0


From 8a572ea637aac25ab203cb40322ef4dd8616a31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:45 +0000
Subject: [PATCH 11/18] fix: event_date returns the event date

---
 geoana/earthquake/oksar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geoana/earthquake/oksar.py b/geoana/earthquake/oksar.py
index 65d7d06..d6b7492 100644
--- a/geoana/earthquake/oksar.py
+++ b/geoana/earthquake/oksar.py
@@ -645,7 +645,7 @@ class EarthquakeInterferogram:
         datetime.datetime
             The date and time
         """
-        return self._processed_date
+        return self._event_date
 
     @event_date.setter
     def event_date(self, date_time):
-- 
2.43.0


From 44dac17c14f825a2ad4589b0f99fe9ee9b41b224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:45 +0000
Subject: [PATCH 12/18] fix: Oksar.V returns the V direction

---
 geoana/earthquake/oksar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geoana/earthquake/oksar.py b/geoana/earthquake/oksar.py
index d6b7492..78875e9 100644
--- a/geoana/earthquake/oksar.py
+++ b/geoana/earthquake/oksar.py
@@ -1001,7 +1001,7 @@ class Oksar:
             V direction of the simulation domain
 
         """
-        return self._location
+        return self._V
 
     @V.setter
     def V(self, var):
-- 
2.43.0


From f4f60a9b9e02c7ec8ac5a00a57ac29adbdb73fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:45 +0000
Subject: [PATCH 13/18] fix: simulation grid spans the U and V directions

---
 geoana/earthquake/oksar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geoana/earthquake/oksar.py b/geoana/earthquake/oksar.py
index 78875e9..8c256b4 100644
--- a/geoana/earthquake/oksar.py
+++ b/geoana/earthquake/oksar.py
@@ -1290,7 +1290,7 @@ class Oksar:
             np.linspace(0, 1, shape[1])
         )
         square = np.stack([square[0].flatten(), square[1].flatten()], axis=-1)
-        grid = origin + np.einsum('ij,...j->...i', R, square)
+        grid = origin + np.einsum('ji,...j->...i', R, square)
 
         return grid
 
-- 
2.43.0


From 6c6dcb1036addeb5abe51019b75aabea89ffb983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:45 +0000
Subject: [PATCH 14/18] fix: fault displacement at every grid point

---
 geoana/earthquake/oksar.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geoana/earthquake/oksar.py b/geoana/earthquake/oksar.py
index 8c256b4..c3d2927 100644
--- a/geoana/earthquake/oksar.py
+++ b/geoana/earthquake/oksar.py
@@ -1359,8 +1359,8 @@ class Oksar:
         PI2 = 6.283185307179586
         EPS = 1.0E-6
 
-        u = np.array([F0, F0, F0])
-        dub = np.array([F0, F0, F0])
+        u = np.zeros((3, ) + X.shape)
+        dub = np.zeros_like(u)
 
         #  %%dccon0 subroutine
         #  Calculates medium and fault dip constants
@@ -1509,7 +1509,7 @@ class Oksar:
                     du2 = np.array([du2x, du2y, du2z])
                     dub = du2 * (disl1 / PI2)
                 else:
-                    dub = np.zeros(3)
+                    dub = np.zeros_like(u)
 
                 # dip-slip contribution
                 if(disl2 != F0):
@@ -1529,7 +1529,7 @@ class Oksar:
                     u = + du + u
                 else:
                     u = - du + u
-        return u
+        return np.moveaxis(u, 0, -1)
 
     @requires({"matplotlib": matplotlib})
     def plot_displacement(self, eq=None, ax=None, wrap=True, mask_opacity=0.2):
-- 
2.43.0


From 288eea87432fa8ac1f61ac56a0341347b9c8e234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:42 +0000
Subject: [PATCH 15/18] fix: reject locations and primary fields that are not a
 single vector

Arrays with three rows, such as shape (3, 3), passed the length check of
the point currents, half-space electrodes and spheres (and turned a point
current into a wire).
---
 geoana/em/static/halfspace.py  | 12 ++++++------
 geoana/em/static/sphere.py     | 16 ++++++++--------
 geoana/em/static/wholespace.py |  7 ++++---
 3 files changed, 18 insertions(+), 17 deletions(-)

diff --git a/geoana/em/static/halfspace.py b/geoana/em/static/halfspace.py
index 859fb43..e599563 100644
--- a/geoana/em/static/halfspace.py
+++ b/geoana/em/static/halfspace.py
@@ -107,9 +107,9 @@ class PointCurrentHalfSpace:
         except:
             raise TypeError(f"location must be array_like, got {type(vec)}")
 
-        if len(vec) != 3:
+        if vec.shape != (3,):
             raise ValueError(
-                f"location must be array_like with shape (3,), got {len(vec)}"
+                f"location must be array_like with shape (3,), got {vec.shape}"
             )
 
         if np.any(vec[..., -1] > 0):
@@ -424,9 +424,9 @@ class DipoleHalfSpace:
         except:
             raise TypeError(f"location must be array_like, got {type(vec)}")
 
-        if len(vec) != 3:
+        if vec.shape != (3,):
             raise ValueError(
-                f"location must be array_like with shape (3,), got {len(vec)}"
+                f"location must be array_like with shape (3,), got {vec.shape}"
             )
 
         if np.any(vec[..., -1] > 0):
@@ -456,9 +456,9 @@ class DipoleHalfSpace:
         except:
             raise TypeError(f"location must be array_like, got {type(vec)}")
 
-        if len(vec) != 3:
+        if vec.shape != (3,):
             raise ValueError(
-                f"location must be array_like with shape (3,), got {len(vec)}"
+                f"location must be array_like with shape (3,), got {vec.shape}"
             )
 
         if np.any(vec[..., -1] > 0):
diff --git a/geoana/em/static/sphere.py b/geoana/em/static/sphere.py
index d926076..7edbe24 100644
--- a/geoana/em/static/sphere.py
+++ b/geoana/em/static/sphere.py
@@ -113,9 +113,9 @@ class ElectrostaticSphere:
         except:
             raise TypeError(f"primary_field must be array_like, got {type(vec)}")
 
-        if len(vec) != 3:
+        if vec.shape != (3,):
             raise ValueError(
-                f"primary_field must be array_like with shape (3,), got {len(vec)}"
+                f"primary_field must be array_like with shape (3,), got {vec.shape}"
             )
 
         self._primary_field = vec
@@ -139,9 +139,9 @@ class ElectrostaticSphere:
         except:
             raise TypeError(f"location must be array_like, got {type(vec)}")
 
-        if len(vec) != 3:
+        if vec.shape != (3,):
             raise ValueError(
-                f"location must be array_like with shape (3,), got {len(vec)}"
+                f"location must be array_like with shape (3,), got {vec.shape}"
             )
 
         self._location = vec
@@ -624,9 +624,9 @@ class MagnetostaticSphere:
         except:
             raise TypeError(f"primary_field must be array_like, got {type(vec)}")
 
-        if len(vec) != 3:
+        if vec.shape != (3,):
             raise ValueError(
-                f"primary_field must be array_like with shape (3,), got {len(vec)}"
+                f"primary_field must be array_like with shape (3,), got {vec.shape}"
             )
 
         self._primary_field = vec
@@ -650,9 +650,9 @@ class MagnetostaticSphere:
         except:
             raise TypeError(f"location must be array_like, got {type(vec)}")
 
-        if len(vec) != 3:
+        if vec.shape != (3,):
             raise ValueError(
-                f"location must be array_like with shape (3,), got {len(vec)}"
+                f"location must be array_like with shape (3,), got {vec.shape}"
             )
 
         self._location = vec
diff --git a/geoana/em/static/wholespace.py b/geoana/em/static/wholespace.py
index 09b9068..e1a83a2 100644
--- a/geoana/em/static/wholespace.py
+++ b/geoana/em/static/wholespace.py
@@ -1097,7 +1097,8 @@ class PointCurrentWholeSpace(LineCurrentWholeSpace):
     def __init__(self, rho, current=1.0, location=None):
         if location is None:
             location = np.r_[0, 0, 0]
-        super().__init__(sigma=1/rho, nodes=location, current=current)
+        super().__init__(sigma=1/rho, nodes=np.r_[0., 0., 0.], current=current)
+        self.location = location
 
     @property
     def location(self):
@@ -1118,9 +1119,9 @@ class PointCurrentWholeSpace(LineCurrentWholeSpace):
         except:
             raise TypeError(f"location must be array_like, got {type(vec)}")
 
-        if len(vec) != 3:
+        if vec.shape != (3,):
             raise ValueError(
-                f"location must be array_like with shape (3,), got {len(vec)}"
+                f"location must be array_like with shape (3,), got {vec.shape}"
             )
         self.nodes[0] = vec
 
-- 
2.43.0


From 3e1b1f8ae477a8f5e1660d94fae4fabf8cc5611b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:42 +0000
Subject: [PATCH 16/18] fix: plane waves reject orientation strings other than
 X and Y

They were stored as they are, and failed or gave nonsense only when a
field was evaluated.
---
 geoana/em/fdem/wholespace.py | 2 ++
 geoana/em/tdem/wholespace.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/geoana/em/fdem/wholespace.py b/geoana/em/fdem/wholespace.py
index d2430e5..dacfc3e 100644
--- a/geoana/em/fdem/wholespace.py
+++ b/geoana/em/fdem/wholespace.py
@@ -980,6 +980,8 @@ class HarmonicPlaneWave(BaseFDEM):
                 var = np.r_[1., 0., 0.]
             elif var.upper() == 'Y':
                 var = np.r_[0., 1., 0.]
+            else:
+                raise ValueError("Orientation must be one of {'X','Y'}")
         else:
             try:
                 var = np.asarray(var, dtype=float)
diff --git a/geoana/em/tdem/wholespace.py b/geoana/em/tdem/wholespace.py
index 94115ca..c2b6797 100644
--- a/geoana/em/tdem/wholespace.py
+++ b/geoana/em/tdem/wholespace.py
@@ -657,6 +657,8 @@ class TransientPlaneWave(BaseTDEM):
                 var = np.r_[1., 0., 0.]
             elif var.upper() == 'Y':
                 var = np.r_[0., 1., 0.]
+            else:
+                raise ValueError("Orientation must be one of {'X','Y'}")
         else:
             try:
                 var = np.asarray(var, dtype=float)
-- 
2.43.0


From 6b4ddfceef7b7cc7443a70190b449084941b5f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:48 +0000
Subject: [PATCH 17/18] fix: magnetic field of a line current in line with one
 of its segments

---
 geoana/em/static/wholespace.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geoana/em/static/wholespace.py b/geoana/em/static/wholespace.py
index e1a83a2..e73038a 100644
--- a/geoana/em/static/wholespace.py
+++ b/geoana/em/static/wholespace.py
@@ -1015,7 +1015,9 @@ class LineCurrentWholeSpace(BaseLineCurrent, BaseEM):
 
             cyl_points = cartesian_to_cylindrical(r0_vec[..., 1:])
 
-            temp_storage[..., 1] = (r1_hat[..., 0] - r0_hat[..., 0])/cyl_points[..., 0]
+            # zero (not 0/0) in line with the segment, beyond its ends
+            d_cos = r1_hat[..., 0] - r0_hat[..., 0]
+            temp_storage[..., 1] = d_cos/np.where(d_cos == 0, 1, cyl_points[..., 0])
             temp_storage[..., 1:] = cylindrical_to_cartesian(cyl_points, temp_storage)
 
             # the undo the local rotation...
-- 
2.43.0


From eef5d3b7893bb0ec260672657f1158568f181ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:37 +0000
Subject: [PATCH 18/18] fix: sources keep their own copy of given arrays

---
 geoana/em/base.py             | 2 +-
 geoana/em/fdem/base.py        | 2 +-
 geoana/em/static/freespace.py | 2 +-
 geoana/em/tdem/base.py        | 2 +-
 geoana/gravity.py             | 2 +-
 geoana/shapes.py              | 4 ++--
 6 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/geoana/em/base.py b/geoana/em/base.py
index b08d0bb..cfe4463 100644
--- a/geoana/em/base.py
+++ b/geoana/em/base.py
@@ -171,7 +171,7 @@ class BaseDipole:
     def location(self, vec):
 
         try:
-            vec = np.asarray(vec, dtype=float)
+            vec = np.array(vec, dtype=float)
         except:
             raise TypeError(f"location must be array_like of float, got {type(vec)}")
         vec = np.squeeze(vec)
diff --git a/geoana/em/fdem/base.py b/geoana/em/fdem/base.py
index 8c575f7..9f197ca 100644
--- a/geoana/em/fdem/base.py
+++ b/geoana/em/fdem/base.py
@@ -207,7 +207,7 @@ class BaseFDEM(BaseEM):
 
         # Ensure float or numpy array of float
         try:
-            value = np.asarray(value, dtype=float)
+            value = np.array(value, dtype=float)
         except:
             raise TypeError(f"frequencies are not a valid type")
         # Enforce positivity and dimensions
diff --git a/geoana/em/static/freespace.py b/geoana/em/static/freespace.py
index 15a0b6f..acefa11 100644
--- a/geoana/em/static/freespace.py
+++ b/geoana/em/static/freespace.py
@@ -50,7 +50,7 @@ class MagneticPrism(BasePrism):
     @magnetization.setter
     def magnetization(self, vec):
         try:
-            vec = np.asarray(vec, dtype=float)
+            vec = np.array(vec, dtype=float)
         except:
             raise TypeError(f"location must be array_like of float, got {type(vec)}")
 
diff --git a/geoana/em/tdem/base.py b/geoana/em/tdem/base.py
index e5b918b..998132e 100644
--- a/geoana/em/tdem/base.py
+++ b/geoana/em/tdem/base.py
@@ -165,7 +165,7 @@ class BaseTDEM(BaseEM):
 
         # Ensure float or numpy array of float
         try:
-            value = np.asarray(value, dtype=float)
+            value = np.array(value, dtype=float)
         except:
             raise TypeError(f"times are not a valid type")
 
diff --git a/geoana/gravity.py b/geoana/gravity.py
index 5441f5b..7f27586 100644
--- a/geoana/gravity.py
+++ b/geoana/gravity.py
@@ -87,7 +87,7 @@ class PointMass:
     def location(self, vec):
 
         try:
-            vec = np.asarray(vec, dtype=float)
+            vec = np.array(vec, dtype=float)
         except:
             raise TypeError(f"location must be array_like of float, got {type(vec)}")
 
diff --git a/geoana/shapes.py b/geoana/shapes.py
index 0fda9ec..f761617 100644
--- a/geoana/shapes.py
+++ b/geoana/shapes.py
@@ -57,7 +57,7 @@ class BasePrism:
     def min_location(self, vec):
 
         try:
-            vec = np.asarray(vec, dtype=float)
+            vec = np.array(vec, dtype=float)
         except:
             raise TypeError(f"location must be array_like of float, got {type(vec)}")
 
@@ -84,7 +84,7 @@ class BasePrism:
     def max_location(self, vec):
 
         try:
-            vec = np.asarray(vec, dtype=float)
+            vec = np.array(vec, dtype=float)
         except:
             raise TypeError(f"location must be array_like of float, got {type(vec)}")
 
-- 
2.43.0

