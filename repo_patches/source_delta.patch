From b412c303f5ffbe4753ef361786a9edcf178e5b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:07 +0000
Subject: [PATCH 01/51] fix: quote self-referential annotation in
 ContactSurface

The annotation was evaluated while the class was still being defined, so
importing hyvr raised NameError.
---
 hyvr/geo/contact_surface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyvr/geo/contact_surface.py b/hyvr/geo/contact_surface.py
index 82637c5..2c76f76 100644
--- a/hyvr/geo/contact_surface.py
+++ b/hyvr/geo/contact_surface.py
@@ -37,7 +37,7 @@ class ContactSurface:
 
 
 
-    def use_lower_surface_value(self, other_surface: ContactSurface ):
+    def use_lower_surface_value(self, other_surface: 'ContactSurface'):
         other_surf = other_surface.surface
         for i in range(self.nx):
             for j in range(self.ny):
@@ -48,7 +48,7 @@ class ContactSurface:
 
 
 
-    def use_higher_surface_value(self, other_surface: ContactSurface ):
+    def use_higher_surface_value(self, other_surface: 'ContactSurface'):
         other_surf = other_surface.surface
         for i in range(self.nx):
             for j in range(self.ny):
-- 
2.43.0


From 0f733915accca42806a13010857f646bdb74ae44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:07 +0000
Subject: [PATCH 02/51] fix: use numpy functions instead of removed libc
 imports in optimized

sin, cos and sqrt were cimported from libc.math in the Cython version and
were undefined names in the Python version.
---
 hyvr/optimized.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyvr/optimized.py b/hyvr/optimized.py
index b317e72..e8dacd5 100644
--- a/hyvr/optimized.py
+++ b/hyvr/optimized.py
@@ -53,9 +53,9 @@ def set_anisotropic_ktensor(ktensors: npt.NDArray[np.float64],
                 kiso = k_iso[i,j,k]
                 a00 = kiso*(sink**2 + cosk**2*(cosp**2 + a*sinp**2))
                 a01 = kiso*(1-a)*sink*cosk*sinp**2
-                a02 = kiso*((a-1)*(sin(kappa+2*psi)-sin(kappa-2*psi)))/4
+                a02 = kiso*((a-1)*(np.sin(kappa+2*psi)-np.sin(kappa-2*psi)))/4
                 a11 = kiso*((a-1)*sink**2*sinp**2+1)
-                a12 = kiso*((1-a)*(cos(kappa-2*psi)-cos(kappa+2*psi)))/4
+                a12 = kiso*((1-a)*(np.cos(kappa-2*psi)-np.cos(kappa+2*psi)))/4
                 a22 = kiso*(a*cosp**2+sinp**2)
 
                 ktensors[i,j,k,0,0] = a00
@@ -108,7 +108,7 @@ def curve_interp(xc: npt.NDArray[np.float64], yc: npt.NDArray[np.float64],spacin
         total_dist = 0
         j = ic + 1 # this is to make sure j is initialized
         for j in range(ic+1, nc):
-            total_dist += sqrt((xc[j] - xc[j-1]) ** 2 + (yc[j] - yc[j-1]) ** 2)
+            total_dist += np.sqrt((xc[j] - xc[j-1]) ** 2 + (yc[j] - yc[j-1]) ** 2)
             if total_dist > tol:
                 idx.append(j)
                 break
-- 
2.43.0


From 9da24a6dbf993cee1360998ee92d4b785c8c8d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:22 +0000
Subject: [PATCH 03/51] fix: replace np.float, which numpy has removed, by
 np.float64

---
 hyvr/assign_points.py      |  6 +++---
 hyvr/geo/ae_realization.py |  4 ++--
 hyvr/geo/model.py          |  8 ++++----
 hyvr/geo/sheet_ae.py       | 16 ++++++++--------
 4 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/hyvr/assign_points.py b/hyvr/assign_points.py
index d4b5669..aefcdf7 100644
--- a/hyvr/assign_points.py
+++ b/hyvr/assign_points.py
@@ -61,13 +61,13 @@ def assign_points(model):
     hat_array = -1*np.ones((nx, ny, nz), dtype=np.int32)
 
     # angles
-    azim_array = np.zeros((nx, ny, nz), dtype=np.float)
-    dip_array = np.zeros((nx, ny, nz), dtype=np.float)
+    azim_array = np.zeros((nx, ny, nz), dtype=np.float64)
+    dip_array = np.zeros((nx, ny, nz), dtype=np.float64)
 
 
     # container for passing facies, ae, ha, and hat, and azimuth and dip
     geo_ids = np.empty(4, dtype=np.int32)
-    angles = np.empty(2, dtype=np.float)
+    angles = np.empty(2, dtype=np.float64)
 
     total_n = nx * ny
 
diff --git a/hyvr/geo/ae_realization.py b/hyvr/geo/ae_realization.py
index 4988634..d7a04e9 100644
--- a/hyvr/geo/ae_realization.py
+++ b/hyvr/geo/ae_realization.py
@@ -117,8 +117,8 @@ class AERealization:
         self.object_zmins = np.array(self.object_zmin_list)
         self.object_zmaxs = np.array(self.object_zmax_list)
         # get the rest from the object list
-        self.object_azim = np.zeros(self.n_objects, dtype=np.float)
-        self.object_dip = np.zeros(self.n_objects, dtype=np.float)
+        self.object_azim = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_dip = np.zeros(self.n_objects, dtype=np.float64)
         self.object_facies = np.zeros(self.n_objects, dtype=np.int32)
         self.object_num_ha = np.zeros(self.n_objects, dtype=np.int32)
         self.object_num_facies = np.zeros(self.n_objects, dtype=np.int32)
diff --git a/hyvr/geo/model.py b/hyvr/geo/model.py
index 8ffb396..b6e5503 100644
--- a/hyvr/geo/model.py
+++ b/hyvr/geo/model.py
@@ -175,13 +175,13 @@ class Model:
         # Initialise storage arrays:
         # hydraulic conductivity
         self.data['k_iso'] = np.zeros((self.grid.nx, self.grid.ny, self.grid.nz),
-                                      dtype=np.float)
+                                      dtype=np.float64)
         # porosity
         self.data['poros' ]= np.zeros((self.grid.nx, self.grid.ny, self.grid.nz),
-                                      dtype=np.float)
+                                      dtype=np.float64)
         # anisotropy ratio
         self.data['anirat' ]= np.ones((self.grid.nx, self.grid.ny, self.grid.nz),
-                                      dtype=np.float)
+                                      dtype=np.float64)
 
         k_iso = self.data['k_iso']
         poros = self.data['poros']
@@ -289,7 +289,7 @@ class Model:
                 anirat[fac == hyi] = hydraulics['k_ratio'][hy_idx]
 
         # Assignment of anisotropy
-        self.data['ktensors'] = np.zeros((self.grid.nx, self.grid.ny, self.grid.nz, 3, 3), dtype=np.float)
+        self.data['ktensors'] = np.zeros((self.grid.nx, self.grid.ny, self.grid.nz, 3, 3), dtype=np.float64)
         ho.set_anisotropic_ktensor(self.data['ktensors'], k_iso, azim*np.pi/180, dip*np.pi/180, anirat)
 
 
diff --git a/hyvr/geo/sheet_ae.py b/hyvr/geo/sheet_ae.py
index 1c15e83..d1ec85c 100644
--- a/hyvr/geo/sheet_ae.py
+++ b/hyvr/geo/sheet_ae.py
@@ -14,20 +14,20 @@ class SheetAE(AERealization):
 
     def create_object_arrays(self):
 
-        self.object_shift = np.zeros(self.n_objects, dtype=np.float)
-        self.object_layer_dist = np.zeros(self.n_objects, dtype=np.float)
-        self.object_normvec_x = np.zeros(self.n_objects, dtype=np.float)
-        self.object_normvec_y = np.zeros(self.n_objects, dtype=np.float)
-        self.object_normvec_z = np.zeros(self.n_objects, dtype=np.float)
-        self.object_bottom_surface_zmean = np.zeros(self.n_objects, dtype=np.float)
+        self.object_shift = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_layer_dist = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_normvec_x = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_normvec_y = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_normvec_z = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_bottom_surface_zmean = np.zeros(self.n_objects, dtype=np.float64)
         self.object_dipsets = np.zeros(self.n_objects, dtype=np.int32)
 
         if self.n_objects > 0:
             nx, ny = self.object_list[0].bottom_surface.surface.shape
         else:
             nx, ny = 0, 0
-        self.object_bottom_surface = np.zeros((self.n_objects, nx, ny), dtype=np.float)
-        self.object_top_surface = np.zeros((self.n_objects, nx, ny), dtype=np.float)
+        self.object_bottom_surface = np.zeros((self.n_objects, nx, ny), dtype=np.float64)
+        self.object_top_surface = np.zeros((self.n_objects, nx, ny), dtype=np.float64)
 
         for i, obj in enumerate(self.object_list):
             self.object_shift[i] = obj.shift
-- 
2.43.0


From 1eb1155e04a6b9a8dd1eb33a5aa4d08799764420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:52 +0000
Subject: [PATCH 04/51] fix: give Sheet attributes the default values they had
 as C attributes

Attributes that a structure does not use were zero in the Cython class, but
raised AttributeError in the Python class when the object arrays were built.
---
 hyvr/geo/sheet.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/hyvr/geo/sheet.py b/hyvr/geo/sheet.py
index eeed2e8..1f1fc1c 100644
--- a/hyvr/geo/sheet.py
+++ b/hyvr/geo/sheet.py
@@ -11,18 +11,18 @@ class Sheet:
     This class holds parameters for single sheet objects.
     """
     dipsets: npt.NDArray[np.float64]
-    num_facies: npt.NDArray[np.float64]
+    num_facies: npt.NDArray[np.float64] = 0
     zmin: npt.NDArray[np.float64]
     zmax: npt.NDArray[np.float64]
-    dip: npt.NDArray[np.float64]
-    azim: npt.NDArray[np.float64]
-    shift: npt.NDArray[np.float64]
-    layer_dist: npt.NDArray[np.float64]
-    normvec_x: npt.NDArray[np.float64]
-    normvec_y: npt.NDArray[np.float64]
-    normvec_z: npt.NDArray[np.float64]
-    facies: npt.NDArray[np.int32]
-    num_ha: npt.NDArray[np.int32]
+    dip: npt.NDArray[np.float64] = 0
+    azim: npt.NDArray[np.float64] = 0
+    shift: npt.NDArray[np.float64] = 0
+    layer_dist: npt.NDArray[np.float64] = 0
+    normvec_x: npt.NDArray[np.float64] = 0
+    normvec_y: npt.NDArray[np.float64] = 0
+    normvec_z: npt.NDArray[np.float64] = 0
+    facies: npt.NDArray[np.int32] = 0
+    num_ha: npt.NDArray[np.int32] = 0
     facies_array: npt.NDArray[np.int32]
     bottom_surface: ContactSurface
     top_surface: ContactSurface
-- 
2.43.0


From e3e3e9f84f26435908e73efceeafa1eda4786a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:13 +0000
Subject: [PATCH 05/51] fix: make sign work for numpy floats

Subtracting numpy booleans raises TypeError.
---
 hyvr/optimized.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/optimized.py b/hyvr/optimized.py
index e8dacd5..09ab430 100644
--- a/hyvr/optimized.py
+++ b/hyvr/optimized.py
@@ -70,7 +70,7 @@ def set_anisotropic_ktensor(ktensors: npt.NDArray[np.float64],
 
 
 def sign(x: float):
-    return (x >= 0) - (x < 0)
+    return int(x >= 0) - int(x < 0)
 
 
 
-- 
2.43.0


From daaa88dfeecf47ae541dcce0a9f0f660d8010396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:13 +0000
Subject: [PATCH 06/51] fix: add the missing Python version of troughs

ae_types imports hyvr.geo.trough_ae, but only the Cython sources, which need
pxd files that have been removed, were left, so importing hyvr failed. This is
a transliteration of trough.pyx and trough_ae.pyx.
---
 hyvr/geo/trough.py    | 177 ++++++++++++++++++++++++++
 hyvr/geo/trough_ae.py | 282 ++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 459 insertions(+)
 create mode 100644 hyvr/geo/trough.py
 create mode 100644 hyvr/geo/trough_ae.py

diff --git a/hyvr/geo/trough.py b/hyvr/geo/trough.py
new file mode 100644
index 0000000..e0c4149
--- /dev/null
+++ b/hyvr/geo/trough.py
@@ -0,0 +1,177 @@
+import numpy as np
+import hyvr.utils as hu
+
+
+class Trough:
+    """
+    This class holds all parameters of a geometrical trough object.
+
+    The only method of this class is __init__, as after creating all trough
+    objects, the list of troughs in TroughAE will be converted to multiple lists
+    containing of attribute values.
+    """
+    # values of attributes that are not used by the structure of a trough
+    shift = 0
+    layer_dist = 0
+    dip = 0
+    azim = 0
+    facies = 0
+    num_ha = 0
+    cosdip = 0
+    normvec_x = 0
+    normvec_y = 0
+    normvec_z = 0
+    num_facies = 0
+
+    def __init__(self, type_params, *, x, y, z, a, b, c, alpha):
+        self.x = x
+        self.y = y
+        self.z = z
+        self.a = a
+        self.b = b
+        self.c = c
+        self.max_ab = max(a, b)
+        self.zmin = z - c
+        self.zmax = z
+        self.alpha = alpha
+
+        # To calculate the 'normalized' distance (i.e. the distance normalized
+        # by the parameters a, b, and c such that distance > 1 means outside of
+        # the ellipsoid) of a rotated trough or to find the tangential planes
+        # to calculate dip and azimuth of bulb sets, we could view our
+        # ellipsoid as a deformed and rotated sphere. At first, a deformation
+        # along the x-, y- and z-axes is performed, and then a rotation along
+        # the z-axis with angle alpha.
+        # In matrix form, this operation looks as follows:
+        #
+        #     / cos -sin  0 \   / a  0  0 \   / a*cos -b*sin  0 \
+        # A = | sin  cos  0 | * | 0  b  0 | = | a*sin  b*cos  0 |
+        #     \  0    0   1 /   \ 0  0  c /   \   0      0    c /
+        #
+        # sin and cos are here sin and cos of alpha, the rotation angle
+        # This matrix can be used to transform from the normalized space to the
+        # real space. To go from the real space to the normalized space, the
+        # inverse has to be applied.
+        # Since this is a block diagonal matrix, we can just invert both blocks:
+        #
+        #        /  cos/a  sin/a   0  \
+        # Ainv = | -sin/b  cos/b   0  |
+        #        \    0       0   1/c /
+        #
+        #
+        # Multiplication with a vector (x0, x1, x2) gives:
+        #
+        #          /  x0*cos/a + x1*sin/a \
+        # Ainv*x = | -x0*sin/b + x1*cos/b |
+        #          \         x2/c         /
+        #
+        #
+        self.sinalpha = np.sin(alpha*np.pi/180)
+        self.cosalpha = np.cos(alpha*np.pi/180)
+        # self.A = np.asarray([[a*self.cosalpha, -b*self.sinalpha, 0],
+        #                      [a*self.sinalpha, b*self.cosalpha, 0],
+        #                      [0, 0, c]])
+        # self.normalize_x = lambda x, y, z: np.array(
+        #     [(x*self.cosalpha + y*self.sinalpha)/self.a,
+        #      (-x*self.sinalpha + y*self.cosalpha)/self.b,
+        #      z/c]
+        # )
+        # self.normalized_dist_square = lambda x, y, z: (
+        #     ((x*self.cosalpha + y*self.sinalpha)/a)**2 +\
+        #     ((-x*self.sinalpha + y*self.cosalpha)/b)**2 +\
+        #     (z/c)**2
+        #     )
+
+        self.lag = type_params['lag_height']
+        self.lag_facies = type_params['lag_facies']
+
+        # Assign structure
+        #
+        # To avoid string comparisons we assign each structure a number as
+        # follows:
+        #
+        # 0 : 'massive'
+        # 1 : 'dip'
+        # 2 : 'bulb'
+        # 3 : 'bulb_sets'
+        # 4 : 'random'
+        self.structure = ['massive', 'dip', 'bulb', 'bulb_sets', 'random'].index(type_params['structure'])
+        if self.structure == 4: # random
+            self.structure = np.random.randint(4)
+        if self.structure == 0:  # massive
+            # everything has the same facies, azim, and dip
+            # alpha (rotation angle of trough) is added to azimuth
+            self.facies = np.random.choice(type_params['facies'])
+            self.azim = np.random.uniform(*type_params['azimuth']) + self.alpha
+            self.dip = np.random.uniform(*type_params['dip'])
+        elif self.structure == 1: # dip
+            # In this case the internal structure consists of parallel dipping layers.
+            # To describe these, we need their thickness, a point where we
+            # could place the first layer, and a normal vector defined by two
+            # angles, dip and azimuth.
+            self.layer_dist = type_params['dipset_dist']
+
+            # The normal vector is determined by the dip angle of the dipping
+            # sets and their azimuth. We can again obtain the normal vector by
+            # applying rotation matrices to the vector (0, 0, 1) (the upwards
+            # pointing unit vector).
+            # First, we apply the dip rotation by rotating by the dip
+            # angle along the y-axis to the right (anti-clockwise).
+            # Then we rotate around the z-axis by the azimuth angle along the
+            # z-axis to the left (clockwise)
+            # In matrix notation:
+            #
+            #     / cos(azim)  sin(azim)  0 \   /  cos(dip)  0  sin(dip) \   / 0 \
+            # n = |-sin(azim)  cos(azim)  0 | * |     0      1     0     | * | 0 |
+            #     \    0            0     1 /   \ -sin(dip)  0  cos(dip) /   \ 1 /
+            #
+            #
+            #     / cos(azim)  sin(azim)  0 \   /  sin(dip) \
+            # n = |-sin(azim)  cos(azim)  0 | * |    0      |
+            #     \    0            0     1 /   \  cos(dip) /
+            #
+            #
+            #     /  sin(dip)*cos(azim) \
+            # n = | -sin(dip)*sin(azim) |
+            #     \       cos(dip)      /
+            #
+            #
+            # The azimuth is the given azimuth **with** the rotation of the
+            # trough, all angles are in degree
+            self.azim = np.random.uniform(*type_params['azimuth']) + self.alpha
+            self.dip = np.random.uniform(*type_params['dip'])
+            sin_dip = np.sin(self.dip*np.pi/180)
+            cos_dip = np.cos(self.dip*np.pi/180)
+            sin_azim = np.sin(self.azim*np.pi/180)
+            cos_azim = np.cos(self.azim*np.pi/180)
+            self.normvec_x = sin_dip*cos_azim
+            self.normvec_y = -sin_dip*sin_azim
+            self.normvec_z = cos_dip
+
+            # The 'starting point' will be the center of the trough, i.e.
+            # (self.x, self.y, self.z).
+            # To move the planes a bit we add a random component
+            self.shift = np.random.uniform(0, self.layer_dist)
+
+            # The facies changes with every distance `layer_dist` to the zero
+            # plane. The maximum number of different facies is:
+            self.num_facies = int(np.ceil((2*max(a, b, c) + self.shift)/self.layer_dist)) + 2
+            self.facies_array = hu.get_alternating_facies(self.num_facies, type_params)
+        elif self.structure == 2: # bulb
+            self.facies = np.random.choice(type_params['facies'])
+            # only used as maximum possible dip
+            self.dip = np.random.uniform(*type_params['dip'])
+        elif self.structure == 3: # bulb_sets
+            # The facies thickness is 'bulbset_dist', and is measured along the
+            # z-axis. If a cell is not on the z-axis, this distance get's
+            # deformed a bit. We add again a random shift, but this time in the
+            # normalized domain.
+            self.layer_dist = type_params['bulbset_dist']
+            self.shift = np.random.uniform()
+            self.num_facies = int(np.ceil((1 + self.shift)*c/self.layer_dist)) + 1
+            self.facies_array = hu.get_alternating_facies(self.num_facies, type_params)
+            # maximum possible dip
+            self.dip = np.random.uniform(*type_params['dip'])
+        else:
+            print("Structure number:", self.structure)
+            raise NotImplementedError('This structure is not implemented yet')
diff --git a/hyvr/geo/trough_ae.py b/hyvr/geo/trough_ae.py
new file mode 100644
index 0000000..a30354b
--- /dev/null
+++ b/hyvr/geo/trough_ae.py
@@ -0,0 +1,282 @@
+
+import numpy as np
+import numpy.typing as npt
+from math import sqrt, ceil, acos, pi, fabs, atan
+
+from hyvr.geo.trough_utils import *
+from hyvr.geo.trough import Trough
+from hyvr.geo.grid import Grid
+from hyvr.geo.ae_realization import AERealization
+import hyvr.optimized as ho
+
+
+class TroughAE(AERealization):
+
+    def create_object_arrays(self):
+        # This is super ugly :(
+        self.object_x = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_y = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_z = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_a = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_b = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_c = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_max_ab = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_alpha = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_sinalpha = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_cosalpha = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_lag = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_shift = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_cosdip = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_layer_dist = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_normvec_x = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_normvec_y = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_normvec_z = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_lag_facies = np.zeros(self.n_objects, dtype=np.int32)
+        self.object_structure = np.zeros(self.n_objects, dtype=np.int32)
+
+        for i, obj in enumerate(self.object_list):
+            self.object_x[i] = obj.x
+            self.object_y[i] = obj.y
+            self.object_z[i] = obj.z
+            self.object_a[i] = obj.a
+            self.object_b[i] = obj.b
+            self.object_c[i] = obj.c
+            self.object_max_ab[i] = obj.max_ab
+            self.object_alpha[i] = obj.alpha
+            self.object_sinalpha[i] = obj.sinalpha
+            self.object_cosalpha[i] = obj.cosalpha
+            self.object_lag[i] = obj.lag
+            self.object_shift[i] = obj.shift
+            self.object_cosdip[i] = obj.cosdip
+            self.object_layer_dist[i] = obj.layer_dist
+            self.object_normvec_x[i] = obj.normvec_x
+            self.object_normvec_y[i] = obj.normvec_y
+            self.object_normvec_z[i] = obj.normvec_z
+            self.object_lag_facies[i] = obj.lag_facies
+            self.object_structure[i] = obj.structure
+
+
+    def generate_objects(self, grid):
+        """
+        Generate trough objects and place them in the domain.
+        """
+
+        # get trough positions
+        if self.type_params['te_xyz'] is None:
+            te_xyz = generate_trough_positions(
+                self.bottom_surface, self.top_surface, self.type_params, grid
+            )
+        else:
+            te_xyz = self.type_params['te_xyz']
+
+        # Generate troughs
+        for xc, yc, zc in te_xyz:
+            trough_params = rand_trough_params(self.type_params, zc, grid)
+            trough_params['x'] = xc
+            trough_params['y'] = yc
+            trough_params['z'] = zc
+            trough = Trough(self.type_params, **trough_params)
+            self._add_object(trough)
+
+
+
+
+    def maybe_assign_points_to_object(self, oi: int,
+                                        geo_ids: npt.NDArray[np.int32],
+                                        angles: npt.NDArray[np.float64],
+                                        x: float, y: float, z: float,
+                                        x_idx: int, y_idx: int,
+                                        grid: Grid):
+        """
+        This function checks whether the current grid cell with given
+        coordinates is inside the trough and assigns facies, azimuth and dip by
+        altering the passed arrays.
+
+        Parameters
+        ----------
+        oi : int
+            object index
+        geo_ids : np.int32 array of size 4
+            This holds the geological indices, i.e. facies number, architectural
+            element number, hydrofacies assemblage (ha) and hydrofacies assemblage
+            type (hat).
+        angles : double array
+            array of size 2 that holds the azimuth and dip of the cell. This
+            will also be altered.
+        x, y, z : double
+            cell coordinates
+        x_idx, y_idx : int
+            indices of x and y position in grid.
+        grid : Grid object
+        """
+
+        object_x = self.object_x[oi]
+        object_y = self.object_y[oi]
+        object_z = self.object_z[oi]
+
+
+        # Beware: This function is called a lot, so it should really be fast
+
+        ####################################################################
+        # CHECK IF INSIDE
+        ####################################################################
+
+        # At first, we check whether the cell is inside the domain. To keep the
+        # number of calculations short, we first use very broad criterions
+        # before calculating whether it's inside.
+        dx = x - object_x
+        dy = y - object_y
+        dz = z - object_z
+        if grid.periodic:
+            if dx > grid.lx/2:
+                dx -= grid.lx
+            elif dx < -grid.lx/2:
+                dx += grid.lx
+            if dy > grid.ly/2:
+                dy -= grid.ly
+            elif dy < -grid.ly/2:
+                dy += grid.ly
+        # it seems to me that this is a bit faster than abs, and speed here is critical
+        max_ab = self.object_max_ab[oi]
+        if dx > max_ab or -dx > max_ab or dy > max_ab or -dy > max_ab or dz > 0:
+            geo_ids[0] = -1
+            return
+
+        # To decide whether the point is inside, we can just use the normalized
+        # distance. Therefore we first calculate the normalized distance vector
+        cosalpha = self.object_cosalpha[oi]
+        sinalpha = self.object_sinalpha[oi]
+        normalized_dx = (dx*cosalpha + dy*sinalpha)/self.object_a[oi]
+        normalized_dy = (-dx*sinalpha + dy*cosalpha)/self.object_b[oi]
+        normalized_dz = dz/self.object_c[oi]
+        l2 = normalized_dx**2 + normalized_dy**2 + normalized_dz**2
+        if l2 > 1:
+            geo_ids[0] = -1
+            return
+
+        # At this point we know that the point is in the domain, so we have to
+        # assign values
+
+        # check whether it's below the lag surface
+        if z < object_z - self.object_c[oi] + self.object_lag[oi]:
+            # is inside lag surface
+            geo_ids[0] = self.object_lag_facies[oi]
+            angles[0] = 0 # no azimuth
+            angles[1] = 0 # no dip
+            geo_ids[2] = self.object_num_ha[oi]
+            return
+
+        structure = self.object_structure[oi]
+        if structure == 0: # massive
+            geo_ids[0] = self.object_facies[oi]
+            angles[0] = self.object_azim[oi]
+            angles[1] = self.object_dip[oi]
+            geo_ids[2] = self.object_num_ha[oi]
+            return
+        elif structure == 1: # dip
+            # get distance from zero-plane
+            plane_dist = dx*self.object_normvec_x[oi] +\
+                         dy*self.object_normvec_y[oi] +\
+                         dz*self.object_normvec_z[oi] + self.object_shift[oi]
+            # get index in facies vector, where n = len(facies)//2 at d=0
+            n = int(plane_dist/self.object_layer_dist[oi]) + self.object_num_facies[oi]//2
+            geo_ids[0] = self.object_facies_array[oi,n]
+            angles[0] = self.object_azim[oi]
+            angles[1] = self.object_dip[oi]
+            geo_ids[2] = self.object_num_ha[oi]
+            return
+        elif structure == 2 or structure == 3: # bulb or bulb_sets
+            # Since ellipsoids are isosurfaces of quadratic functions, we can
+            # get the normal vector by taking the gradient of the quadratic
+            # function that has our ellipsoid as iso-surface.
+            # This function can be written as:
+            #
+            # f(d(x)) = (x*cos+y*sin)**2/a**2 + (-x*sin+y*cos)**2/b** + z**2/c**2
+            #
+            # The gradient is (up to a scalar)
+            #
+            #             /  nx*cos/a + ny*sin/b  \
+            # grad f(x) = | -nx*sin/a + ny*cos/b  |
+            #             \          nz/c         /
+            #
+            # where nx, ny, nz are the normalized distances.
+            # The gradient points outwards.
+            # The length of the vector is
+            #
+            # |grad f(x)| = (nx/a)**2 + (ny/b)**2 + (nz/c)**2
+            #
+            # The dip angle is the the angle between the normal
+            # vector and the unit z-vector.
+            # The azimuth is the angle between the projection of the normal
+            # vector onto the x-y-plane and the unit x-vector.
+            aaa = normalized_dx/self.object_a[oi]
+            bbb = normalized_dy/self.object_b[oi]
+            ccc = normalized_dz/self.object_c[oi]
+            len_normvec = sqrt(aaa**2 + bbb**2 + ccc**2)
+            if len_normvec != 0:
+                normvec_x = (aaa*self.object_cosalpha[oi]
+                             + bbb*self.object_sinalpha[oi])/len_normvec
+                normvec_y = (-aaa*self.object_sinalpha[oi]
+                             + bbb*self.object_cosalpha[oi])/len_normvec
+                normvec_z = ccc/len_normvec
+                len_normvec_xy = sqrt(normvec_x**2 + normvec_y**2)
+                if len_normvec_xy == 0:
+                    # normal vector points in z-direction -> dip = 0, azim = 0
+                    dip = 0.
+                    azim = 0.
+                else:
+                    # The dip angle can be found as acos of the normalized
+                    # scalar product of unit z-vector and normal vector
+                    # It should be negative, if the gradient points in positive
+                    # x direction and in positive z direction, or if it points
+                    # in negative x and z direction.
+                    # direction.
+                    if normvec_z == 0:
+                        # in this case only the sign of x is relevant
+                        dip = -acos(fabs(normvec_z))*ho.sign(normvec_x)/pi*180
+                    else:
+                        dip = -acos(fabs(normvec_z))\
+                              * ho.sign(normvec_x*normvec_z)/ pi*180
+
+                    # The azimuth angle should also be between -90 and 90. It is
+                    # the angle between the projection of the normal vector into
+                    # the xy-plane and the x unit vector.
+                    # It can be calculated as negative atan of the y component
+                    # over the x component. To make sure the angle is between
+                    # -90 and 90, we change the sign of both components, if the
+                    # x component is negative. This means the x component is
+                    # always positive, and the y component is multiplied by the
+                    # sign of the x component
+                    azim = -atan(ho.sign(normvec_x)*normvec_y/fabs(normvec_x))\
+                           / pi*180
+            else:
+                # the point is exactly at the center of the trough, this means
+                # there is no azim and dip
+                azim = 0
+                dip = 0
+
+            # use self.object_dip[oi] as maximum dip
+            if dip > self.object_dip[oi]:
+                dip = self.object_dip[oi]
+            elif dip < -self.object_dip[oi]:
+                dip = -self.object_dip[oi]
+
+            if structure == 2: # bulb
+                geo_ids[0] = self.object_facies[oi]
+                angles[0] = azim
+                angles[1] = dip
+                geo_ids[2] = self.object_num_ha[oi]
+                return
+            else:
+                # create bulb sets
+                # The facies can be found by dividing the normalized distance
+                # by the normalized bublset_d:
+                n = int(ceil((sqrt(l2) + self.object_shift[oi])*self.object_c[oi]/self.object_layer_dist[oi]))
+                geo_ids[0] = self.object_facies_array[oi,n]
+                angles[0] = azim
+                angles[1] = dip
+                geo_ids[2] = self.object_num_ha[oi]
+                return
+        else:
+            print('Structure:', structure)
+            raise NotImplementedError('This structure is not implemented yet')
\ No newline at end of file
-- 
2.43.0


From 72ba90854090290d512f746de351070584810c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:13 +0000
Subject: [PATCH 07/51] fix: add the missing Python version of channels

ae_types imports hyvr.geo.channel_ae, but only the Cython sources, which need
pxd files that have been removed, were left, so importing hyvr failed. This is
a transliteration of channel.pyx and channel_ae.pyx, except that the distances
of the cell columns to the centerline are calculated once per channel with
numpy instead of once per cell.
---
 hyvr/geo/channel.py    | 113 +++++++++++++++++++++
 hyvr/geo/channel_ae.py | 217 +++++++++++++++++++++++++++++++++++++++++
 2 files changed, 330 insertions(+)
 create mode 100644 hyvr/geo/channel.py
 create mode 100644 hyvr/geo/channel_ae.py

diff --git a/hyvr/geo/channel.py b/hyvr/geo/channel.py
new file mode 100644
index 0000000..61e3ea5
--- /dev/null
+++ b/hyvr/geo/channel.py
@@ -0,0 +1,113 @@
+import numpy as np
+import hyvr.utils as hu
+
+
+class Channel:
+    """
+    Channel implementation.
+
+    This is work in progress, as we currently lack a centerline construction method.
+    """
+
+    # values of attributes that are not used by the structure of a channel
+    dip = 0
+    azim = 0
+    sin_dip = 0
+    cos_dip = 0
+    shift = 0
+    layer_dist = 0
+    facies = 0
+    num_ha = 0
+    num_facies = 0
+
+    def __init__(self, type_params, x_center, y_center, vx, vy, z, width, depth, grid):
+        # x_center and y_center should be coordinates of points on the centerline.
+        self.x_center = x_center
+        self.y_center = y_center
+        self.vx = vx
+        self.vy = vy
+        self.len_centerline = len(x_center)
+
+        # The distance of the cell columns to the centerline in the x-y-plane
+        # does not depend on z, so it is only calculated once. For dipsets we
+        # also need the distance along the curve of the closest point, and the
+        # direction of the flow (inverse distance weighting).
+        x_grid = grid.X[:,:,0]
+        y_grid = grid.Y[:,:,0]
+        self.xy_dist = np.full((grid.nx, grid.ny), np.inf)
+        self.dist_along_curve = np.zeros((grid.nx, grid.ny))
+        vx_sum = np.zeros((grid.nx, grid.ny))
+        vy_sum = np.zeros((grid.nx, grid.ny))
+        curve_dist = 0
+        for i in range(self.len_centerline):
+            if i > 0:
+                curve_dist += np.sqrt((x_center[i] - x_center[i-1])**2
+                                      + (y_center[i] - y_center[i-1])**2)
+            dist = np.sqrt((x_grid - x_center[i])**2 + (y_grid - y_center[i])**2)
+            vx_sum += vx[i]/(dist + 1e-20)
+            vy_sum += vy[i]/(dist + 1e-20)
+            closer = dist < self.xy_dist
+            self.xy_dist[closer] = dist[closer]
+            self.dist_along_curve[closer] = curve_dist
+        self.flow_azim = np.arctan2(vy_sum, vx_sum)/np.pi*180
+
+        # for better searching
+        self.ztop = z
+        self.zmax = z
+        self.zmin = z - depth
+
+
+        # The channel shape is a parabolic function that maps the distance in
+        # the x-y-plane onto a z-value:
+        #
+        #     z(d) = a*d**2 + b*d + c
+        #
+        # The parameters a, b, and c must be chosen such that ``z(0) = -depth``
+        # and ``z(+-width/2) = 0``:
+        #
+        #     z(0) = c = -depth                                          (1)
+        #
+        #     z(width/2) = a*width**2/4 + b*width/2 - depth = 0
+        #     z(-width/2) = a*width**2/4 - b*width/2 - depth = 0
+        #
+        # Therefore ``b = 0`` and ``a = 4*depth/width**2``
+        self.depth = depth
+        self.width = width
+        self.a = 4*self.depth/self.width**2
+
+        # lag
+        self.lag_height = type_params['lag_height']
+        self.lag_facies = type_params['lag_facies']
+
+
+        # Get facies, dip, and azimuth
+        self.dipsets = type_params['structure'] == 'dip'
+        if self.dipsets:
+            # the dipsets are layers of planes along the channel centerline
+            # with distance 'dipset_dist'
+            # To find which layer a point belongs to we will calculate its
+            # distance along the centerline.
+            # Since the layers are dipping, the real distance is longer than
+            # the distance that we would go if we would go orthogonal to the
+            # planes. Therefore the distance along the curve has to be
+            # multiplied by the sin of the dip angle
+            self.layer_dist = type_params['dipset_dist']
+            self.dip = np.random.uniform(*type_params['dip'])
+            self.sin_dip = np.sin(self.dip*np.pi/180)
+            self.cos_dip = np.cos(self.dip*np.pi/180)
+            # a random shift to be added to the distance
+            self.shift = np.random.uniform(0, self.layer_dist)
+
+            # The respective facies will be stored in an array such
+            # that the zero-plane is in the center.
+            # The longest distance along the curve is the length of the curve
+            self.num_facies = int(
+                np.ceil(curve_dist*self.sin_dip/self.layer_dist + self.shift)
+                + np.ceil(self.depth/self.layer_dist)
+            )
+            self.num_facies += 10  # just to be sure
+            self.facies_array = hu.get_alternating_facies(self.num_facies, type_params)
+        else:
+            # massive internal structure
+            self.dip = np.random.uniform(*type_params['dip'])
+            self.facies = np.random.choice(type_params['facies'])
diff --git a/hyvr/geo/channel_ae.py b/hyvr/geo/channel_ae.py
new file mode 100644
index 0000000..4bee6cf
--- /dev/null
+++ b/hyvr/geo/channel_ae.py
@@ -0,0 +1,217 @@
+
+import numpy as np
+import numpy.typing as npt
+
+from hyvr.geo.channel_utils import ferguson_curve
+from hyvr.geo.channel import Channel
+from hyvr.geo.grid import Grid
+from hyvr.geo.ae_realization import AERealization
+
+
+class ChannelAE(AERealization):
+
+    def create_object_arrays(self):
+        # This is super ugly :(
+        self.object_a = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_width = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_depth = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_ztop = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_sin_dip = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_cos_dip = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_shift = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_layer_dist = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_lag_height = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_lag_facies = np.zeros(self.n_objects, dtype=np.int32)
+        self.object_dipsets = np.zeros(self.n_objects, dtype=np.int32)
+
+        if self.n_objects > 0:
+            nx, ny = self.object_list[0].xy_dist.shape
+        else:
+            nx, ny = 0, 0
+        self.object_xy_dist = np.zeros((self.n_objects, nx, ny), dtype=np.float64)
+        self.object_dist_along_curve = np.zeros((self.n_objects, nx, ny), dtype=np.float64)
+        self.object_flow_azim = np.zeros((self.n_objects, nx, ny), dtype=np.float64)
+
+        for i, obj in enumerate(self.object_list):
+            self.object_a[i] = obj.a
+            self.object_width[i] = obj.width
+            self.object_depth[i] = obj.depth
+            self.object_ztop[i] = obj.ztop
+            self.object_sin_dip[i] = obj.sin_dip
+            self.object_cos_dip[i] = obj.cos_dip
+            self.object_shift[i] = obj.shift
+            self.object_layer_dist[i] = obj.layer_dist
+            self.object_lag_height[i] = obj.lag_height
+            self.object_lag_facies[i] = obj.lag_facies
+            self.object_dipsets[i] = obj.dipsets
+            self.object_xy_dist[i] = obj.xy_dist
+            self.object_dist_along_curve[i] = obj.dist_along_curve
+            self.object_flow_azim[i] = obj.flow_azim
+
+
+    def generate_objects(self, grid):
+        """
+        Generate channel objects and place them in the domain.
+
+
+
+        The following was just an idea I had, ignore it.
+
+        The channels follow a mean flow angle that is given in the parameter
+        file. From this angle, a flow axis is constructed as the "center axis"
+        in direction of the flow angle. (This means the flow axis is chosen such
+        that the projection of the (x-y-)domain onto the axis perpendicular to
+        the flow axis is cut in half by the flow axis.)
+
+        The channels are then created as random 1-d functions of the position
+        on the flow axis, with random starting points (within the projection of
+        the domain onto the axis perpendicular to the flow axis).
+        This can then be rotated to get an approximation of the channel curve
+        (a set of points which lie on the curve).
+
+        On every level, 'channel_no' channels are constructed. They share the
+        same flow angle but are shifted w.r.t. the flow axis.
+
+        Its also possible to let the channels migrate in time, i.e. slightly
+        change the flow angle and the distance between the channels (by
+        changing their starting points).
+        """
+
+        n_channels = self.type_params['channel_no']
+
+        flow_angle = self.type_params['flow_angle']*np.pi/180
+        domain_width = np.abs(grid.lx * np.sin(flow_angle)) + np.abs(grid.ly * np.cos(flow_angle))
+        domain_length = np.abs(grid.lx * np.cos(flow_angle)) + np.abs(grid.ly * np.sin(flow_angle))
+        ystart = np.random.uniform(-domain_width/2, domain_width/2, n_channels)
+
+
+        # get number of layers
+        dz = self.type_params['agg']
+        if self.type_params['size_ztrend'] is not None:
+            z = 0.5*(self.top_surface.zmean + self.bottom_surface.zmean)
+            zfactor = np.interp(z, [grid.z0, grid.zmax], *self.type_params['size_ztrend'])
+        else:
+            zfactor = 1
+        depth = self.type_params['depth'] * zfactor
+        zbottom = self.bottom_surface.zmean + depth*self.type_params['buffer']
+        ztop = self.top_surface.zmean
+
+        z = ztop - dz
+        while z > zbottom:
+
+
+            # get current width and depth
+            if self.type_params['size_ztrend'] is not None:
+                zfactor = np.interp(z, [grid.z0, grid.zmax], self.type_params['size_ztrend'])
+            else:
+                zfactor = 1
+            width = self.type_params['width'] * zfactor
+            depth = self.type_params['depth'] * zfactor
+
+            for i in range(n_channels):
+                # get start of channel
+                ystart_grid = (grid.y0 + grid.ly)/2 - (domain_length+width)/2 * np.sin(flow_angle) + ystart[i] * np.cos(flow_angle)
+                xstart_grid = (grid.x0 + grid.lx)/2 - (domain_length+width)/2 * np.cos(flow_angle) - ystart[i] * np.sin(flow_angle)
+                # generate centerline
+                outputs = ferguson_curve(grid,
+                                         self.type_params['h'],
+                                         self.type_params['k'],
+                                         self.type_params['ds'],
+                                         self.type_params['eps_factor'],
+                                         flow_angle,
+                                         domain_length,
+                                         xstart_grid,
+                                         ystart_grid,
+                                         width,
+                )
+                x_center = outputs[:,0]
+                y_center = outputs[:,1]
+                vx = outputs[:,2]
+                vy = outputs[:,3]
+
+
+                # generate channels
+                channel = Channel(self.type_params, x_center, y_center, vx, vy, z, width, depth, grid)
+                self._add_object(channel)
+
+                if self.type_params['mig'] is not None:
+                    ystart[i] -= np.random.uniform(-self.type_params['mig'], self.type_params['mig'])
+
+            z -= dz
+
+
+
+    def maybe_assign_points_to_object(self, oi: int,
+                                        geo_ids: npt.NDArray[np.int32],
+                                        angles: npt.NDArray[np.float64],
+                                        x: float, y: float, z: float,
+                                        x_idx: int, y_idx: int,
+                                        grid: Grid):
+        """
+        This function checks whether the current grid cell with given
+        coordinates is inside the trough and assigns facies, azimuth and dip by
+        altering the passed arrays.
+
+        Parameters
+        ----------
+        oi : int
+            object index
+        geo_ids : np.int32 array of size 4
+            This holds the geological indices, i.e. facies number, architectural
+            element number, hydrofacies assemblage (ha) and hydrofacies assemblage
+            type (hat).
+        angles : double array
+            array of size 2 that holds the azimuth and dip of the cell. This
+            will also be altered.
+        x, y, z : double
+            cell coordinates
+        x_idx, y_idx : int
+            indices of x and y position in grid.
+        grid : Grid object
+        """
+
+
+        # if the point is above the channel top, don't consider it
+        dz = z - self.object_ztop[oi]
+        if dz > 0:
+            geo_ids[0] = -1
+            return
+
+        # Now we calculate the value of the shape curve and check whether the
+        # point is really inside (i.e. is above the parabola)
+        xy_dist = self.object_xy_dist[oi, x_idx, y_idx]
+        if dz >= self.object_a[oi]*xy_dist**2 - self.object_depth[oi]:
+            # it's inside: assign stuff
+            geo_ids[2] = self.object_num_ha[oi]
+            if z < self.object_ztop[oi] - self.object_depth[oi] + self.object_lag_height[oi]:
+                angles[0] = 0
+                angles[1] = 0
+                geo_ids[0] = self.object_lag_facies[oi]
+                return
+
+            if self.object_dipsets[oi]:
+                # azimuth from inverse distance weighted velocity
+                angles[0] = self.object_flow_azim[oi, x_idx, y_idx]
+                # dip as assigned
+                angles[1] = self.object_dip[oi]
+
+                # TODO: the distance along the curve is actually a bit
+                # different, as the point is not directly orthogonal to the closest point.
+                # However, if the point density on the centerline is high
+                # enough, it won't really matter.
+                # To correct for the distance in z-direction we subtract |dz| * cos(dip)
+                # note that dz is negative here
+                d = self.object_dist_along_curve[oi, x_idx, y_idx] * self.object_sin_dip[oi] + dz*self.object_cos_dip[oi] + self.object_shift[oi]
+                n = int(d/self.object_layer_dist[oi])
+                geo_ids[0] = self.object_facies_array[oi,n]
+                return
+            else:
+                angles[0] = self.object_azim[oi]
+                angles[1] = self.object_dip[oi]
+                geo_ids[0] = self.object_facies[oi]
+                return
+
+        else:
+            # it's not inside
+            geo_ids[0] = -1
+            return
-- 
2.43.0


From c23e52c84a56cca3f164bcc4b99bd443f2c9670e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:56 +0000
Subject: [PATCH 08/51] fix: assign unique hydrofacies assemblage ids

The ids were only stored in the objects, after the object arrays that are used
for assigning grid cells had been created, so every object had the id 0.
---
 hyvr/geo/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyvr/geo/model.py b/hyvr/geo/model.py
index b6e5503..f62f70e 100644
--- a/hyvr/geo/model.py
+++ b/hyvr/geo/model.py
@@ -144,8 +144,9 @@ class Model:
             for ae in stratum.aes:
                 ae.num = num_ae
                 num_ae += 1
-                for obj in ae.object_list:
+                for oi, obj in enumerate(ae.object_list):
                     obj.num_ha = num_ha
+                    ae.object_num_ha[oi] = num_ha
                     num_ha += 1
 
 
-- 
2.43.0


From 8fbc2790dd644a985f584987cdbc11593553a3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:56 +0000
Subject: [PATCH 09/51] fix: use z0 + lz as top of the model instead of lz

---
 hyvr/geo/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/geo/model.py b/hyvr/geo/model.py
index f62f70e..0b9bb94 100644
--- a/hyvr/geo/model.py
+++ b/hyvr/geo/model.py
@@ -106,7 +106,7 @@ class Model:
             'strata',
         ]
 
-        top_surface = ContactSurface(self.grid, mode='flat', z=self.grid.lz)
+        top_surface = ContactSurface(self.grid, mode='flat', z=self.grid.zmax)
         for si in range(self.n_strata):
             # create top surface
             if si == self.n_strata - 1:
-- 
2.43.0


From 3f682901f51358fbb85c18c10283a42e2cfb2475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:56 +0000
Subject: [PATCH 10/51] fix: background cells have assemblage id -1, not 0

The hydraulic parameters of the background were assigned to the cells of the
first object instead of the background cells.
---
 hyvr/geo/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyvr/geo/model.py b/hyvr/geo/model.py
index 0b9bb94..47961c7 100644
--- a/hyvr/geo/model.py
+++ b/hyvr/geo/model.py
@@ -228,9 +228,9 @@ class Model:
                 # for si, aei in enumerate(ae_lu):
                 for stratum in self.strata:
                     for ae in stratum.aes:
-                        m0 = ha_arr == 0
+                        m0 = ha_arr == -1
                         ms = ae_arr == ae.num
-                        ae_mask = m0 & ms     # Get material that equals zero within in architectural element
+                        ae_mask = m0 & ms     # Get background cells within in architectural element
                         if np.all(ae_mask == False):
                             continue
 
-- 
2.43.0


From 691a7fa77e9a9cee0baae2ab7e000d62ce4c8d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:57 +0000
Subject: [PATCH 11/51] fix: apply hydraulic trends in place and only where
 they belong

Trends in x-direction rebound the local name of an array, so that they were
not part of the stored conductivity and porosity. Trends of architectural
elements were applied to the whole model instead of the element, only if the
element had background cells, and not at all to the porosity.
---
 hyvr/geo/model.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/hyvr/geo/model.py b/hyvr/geo/model.py
index 47961c7..64e2dec 100644
--- a/hyvr/geo/model.py
+++ b/hyvr/geo/model.py
@@ -257,14 +257,23 @@ class Model:
                         # Assign background anisotropy ratio
                         anirat[ae_mask] = hydraulics['k_ratio'][ae_bg_facies]
 
-                        # Assign architectural element trends
+                # Assign architectural element trends
+                for stratum in self.strata:
+                    for ae in stratum.aes:
+                        ms = ae_arr == ae.num
                         if ae.type_params['k_ztrend'] is not None:
                             # Vertical trend
                             zf_vec = np.linspace(*ae.type_params['k_ztrend'], self.grid.nz)  # Z factor at each elevation
-                            k_iso *= zf_vec
+                            k_iso[ms] = (k_iso * zf_vec)[ms]
                         if ae.type_params['k_xtrend'] is not None:
                             xf_vec = np.linspace(*ae.type_params['k_xtrend'], self.grid.nx)
-                            k_iso = np.transpose(k_iso.transpose() * xf_vec)
+                            k_iso[ms] = np.transpose(k_iso.transpose() * xf_vec)[ms]
+                        if ae.type_params['n_ztrend'] is not None:
+                            zf_vec = np.linspace(*ae.type_params['n_ztrend'], self.grid.nz)
+                            poros[ms] = (poros * zf_vec)[ms]
+                        if ae.type_params['n_xtrend'] is not None:
+                            xf_vec = np.linspace(*ae.type_params['n_xtrend'], self.grid.nx)
+                            poros[ms] = np.transpose(poros.transpose() * xf_vec)[ms]
 
                 """ Assign trends to hydraulic parameters globally """
                 if hydraulics['k_ztrend'] is not None:
@@ -272,14 +281,14 @@ class Model:
                     k_iso *= zf_vec
                 if hydraulics['k_xtrend'] is not None:
                     xf_vec = np.linspace(*hydraulics['k_xtrend'], self.grid.nx)
-                    k_iso = np.transpose(k_iso.transpose() * xf_vec)
+                    k_iso[:] = np.transpose(k_iso.transpose() * xf_vec)
 
                 if hydraulics['n_ztrend'] is not None:
                     zf_vec = np.linspace(*hydraulics['n_ztrend'], self.grid.nz)  # Z factor at each elevation
                     poros *= zf_vec
                 if hydraulics['n_xtrend'] is not None:
                    xf_vec = np.linspace(*hydraulics['n_xtrend'], self.grid.nx)
-                   poros = np.transpose(poros.transpose() * xf_vec)
+                   poros[:] = np.transpose(poros.transpose() * xf_vec)
 
         else:
             # Homogeneous case
-- 
2.43.0


From 1b3647292deed5442ca0604d917eff8dcf594b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:57 +0000
Subject: [PATCH 12/51] fix: use the name of the hydrofacies option in
 homogeneous models

The option is called 'hydrofacies' in ini-files of the current format, so
models with 'heterogeneity = false' failed with a KeyError.
---
 hyvr/geo/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/geo/model.py b/hyvr/geo/model.py
index 64e2dec..3229e1a 100644
--- a/hyvr/geo/model.py
+++ b/hyvr/geo/model.py
@@ -292,7 +292,7 @@ class Model:
 
         else:
             # Homogeneous case
-            for hy_idx, hyi in enumerate(hydraulics['hydro']):
+            for hy_idx, hyi in enumerate(hydraulics['hydrofacies']):
                 hyi = hy_idx
                 k_iso[fac == hyi] = hydraulics['k_h'][hy_idx]
                 poros[fac == hyi] = hydraulics['n'][hy_idx]
-- 
2.43.0


From 08c5153396a784bf90857da29c697791624b729a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:28 +0000
Subject: [PATCH 13/51] fix: only remove the mean of random fields, not a whole
 plane of modes

syy[0] is the zero frequency for 1-d arrays only. For 2-d and 3-d fields it
removed all variability in y- and z-direction that is constant in x-direction,
e.g. fields that are one cell wide in x-direction were always zero.
---
 hyvr/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/utils.py b/hyvr/utils.py
index c192bf7..d093707 100644
--- a/hyvr/utils.py
+++ b/hyvr/utils.py
@@ -512,7 +512,7 @@ def specsim(grid, var, corl, selection_mask=None, two_dim=False, covmod='gaussia
     # Power spectrum of variable
     syy = np.fft.fftn(np.fft.fftshift(ryy)) / ntot
     syy = np.abs(syy)       # Remove imaginary artifacts
-    syy[0] = 0
+    syy.flat[0] = 0
 
     real = np.random.randn(*syy.shape)
     imag = np.random.randn(*syy.shape)
-- 
2.43.0


From 7d44164175f2eca17b79c68d9162db323ceb6b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:28 +0000
Subject: [PATCH 14/51] fix: do not start the debugger when there is nothing to
 simulate

---
 hyvr/utils.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/hyvr/utils.py b/hyvr/utils.py
index d093707..bb10d18 100644
--- a/hyvr/utils.py
+++ b/hyvr/utils.py
@@ -464,10 +464,7 @@ def specsim(grid, var, corl, selection_mask=None, two_dim=False, covmod='gaussia
 
         else:
             x_idx, y_idx, z_idx = np.where(selection_mask)
-            try:
-                min_x_idx = min(x_idx)
-            except:
-                import pdb; pdb.set_trace()
+            min_x_idx = np.min(x_idx)
             max_x_idx = np.max(x_idx)
             min_y_idx = np.min(y_idx)
             max_y_idx = np.max(y_idx)
-- 
2.43.0


From 7eb5bf410522e98a3b231dc3aa9f28383570e51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:34 +0000
Subject: [PATCH 15/51] fix: assign background cells that lie exactly on a
 contact surface

Such a cell, and all cells below it, were not assigned to any stratum.
---
 hyvr/assign_points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/assign_points.py b/hyvr/assign_points.py
index aefcdf7..e192f3f 100644
--- a/hyvr/assign_points.py
+++ b/hyvr/assign_points.py
@@ -315,7 +315,7 @@ def maybe_assign_points_to_ae(
         return 0
     z_above = top_surface[x_idx, y_idx]
     z_below = bottom_surface[x_idx, y_idx]
-    if z_below < z and z < z_above:
+    if z_below <= z and z <= z_above:
         geo_ids[0] = ae.bg_facies
         angles[0] = ae.bg_azim
         angles[1] = ae.bg_dip
-- 
2.43.0


From 17f12ffbc53884575028ac36e2b3e95c02c90ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:34 +0000
Subject: [PATCH 16/51] fix: limit sheet bottoms to the bottom of the
 architectural element

The top surface of the sheet, which is shared with the sheet or architectural
element above, was modified instead of the bottom surface of the sheet.
---
 hyvr/geo/sheet_ae.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/geo/sheet_ae.py b/hyvr/geo/sheet_ae.py
index d1ec85c..8a1b806 100644
--- a/hyvr/geo/sheet_ae.py
+++ b/hyvr/geo/sheet_ae.py
@@ -87,7 +87,7 @@ class SheetAE(AERealization):
                 # close to the bottom it might also be possible that the AE
                 # bottom is higher than the current bottom, so we have to use
                 # the higher value
-                top_surface.use_higher_surface_value(self.bottom_surface)
+                bottom_surface.use_higher_surface_value(self.bottom_surface)
 
             else:
                 last_sheet = True
-- 
2.43.0


From 3fdec8d977118eb0efd3f8bcb06ddf08c1e31321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:14 +0000
Subject: [PATCH 17/51] fix: parse empty, deeply nested and multi-line lists,
 reject malformed ones

---
 hyvr/input/option_parsing.py | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/hyvr/input/option_parsing.py b/hyvr/input/option_parsing.py
index b11d1b9..999e289 100644
--- a/hyvr/input/option_parsing.py
+++ b/hyvr/input/option_parsing.py
@@ -312,7 +312,7 @@ def numdim(l):
     """
     if not isinstance(l, (list, tuple)):
         return 0
-    if not isinstance(l[-1], (list, tuple)):
+    if len(l) == 0 or not isinstance(l[-1], (list, tuple)):
         return 1
     else:
         return 1 + numdim(l[-1])
@@ -466,18 +466,31 @@ def parse_list(string, dtype):
     ``dtype``. Returns a single value if only a single value is given.
     """
     # l =  string.replace('[', '').replace(']', '').replace(' ', '').split(',')
-    s = string.replace(' ', '') # remove all spaces first
-    if s[0] == '[': # it's not only a single item
-        s = s[1:-1] # remove [ and ] from start and end only
-    else: # it's just a single item
+    s = ''.join(string.split()) # remove all whitespace first
+    if not s.startswith('['): # it's just a single item
         return dtype(s)
+    if not s.endswith(']'):
+        raise ValueError('Invalid list: ' + string)
+    s = s[1:-1] # remove [ and ] from start and end only
+    if s == '': # it's an empty list
+        return []
     if s[0] == '[': # it's a list of lists
-        splitted = s.split('],')
-        for i in range(len(splitted)-1):
-            splitted[i] += ']' # splitting removed the closing bracket from all but the last item
+        # only split at commas that are not within an inner list
+        splitted = ['']
+        depth = 0
+        for c in s:
+            depth += (c == '[') - (c == ']')
+            if c == ',' and depth == 0:
+                splitted.append('')
+            else:
+                splitted[-1] += c
         l = list(map(lambda x: parse_list(x, dtype), splitted))
+        if depth != 0 or any(map(lambda x: numdim(x) != numdim(l[0]), l)):
+            raise ValueError('Invalid list: ' + string)
     else:
         splitted = s.split(',')
+        if '[' in s or ']' in s:
+            raise ValueError('Invalid list: ' + string)
         l = list(map(dtype, splitted))
     return l
 
-- 
2.43.0


From 08223b6a6ee3a3ad439547894561643b46fa932f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:14 +0000
Subject: [PATCH 18/51] fix: expand option values to the documented shapes

---
 hyvr/input/option_parsing.py | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/hyvr/input/option_parsing.py b/hyvr/input/option_parsing.py
index 999e289..f384d87 100644
--- a/hyvr/input/option_parsing.py
+++ b/hyvr/input/option_parsing.py
@@ -265,12 +265,14 @@ class Option():
                 # if it's flat, it might contain dimensions with -1 that cannot be
                 # autoexpanded. We first need to determine the shape of this dimension.
                 if is_flat(shape):
-                    real_shape = get_shape(value)
-                    if isinstance(real_shape, (list, tuple)):
+                    depth = numdim(value)
+                    if depth > len(shape):
+                        raise ShapeError(self.name, section.name)
+                    if depth > 0:
                         # if it's just a single number we can expand it
                         # Here I'm trying to find the flat shape of the value that was
                         # given in the configuration file.
-                        flat_shape_value = try_flattening_shape(real_shape)
+                        flat_shape_value = try_flattening_shape(get_shape(value))
                         # It might happen that we cannot flatten the shape, in this
                         # case there are negative values remaining in flat_shape_value.
                         # If there are, this means that there is a dimension
@@ -283,21 +285,21 @@ class Option():
                         # mind that there might be -1 values left.
                         if flat_shape_value != shape[-len(flat_shape_value):]:
                             raise ShapeError(self.name, section.name)
-                        # If there are -1's left we must ensure that the "depth" of
-                        # the given value, i.e. the number of dimensions, is higher
-                        # than the ``number of dimensions after the value preceding
-                        # the first -1`` + 1 .
-                        if any(map(lambda x: x == -1, shape)):
-                            depth = numdim(value)
-                            mindepth = len(shape) - shape.index(-1) + 1
-                            if depth < mindepth:
-                                raise ValueError('Option ' + self.name + ' in section ' +
-                                                section.name + ' can not be expanded!')
-                        shape = expand_shape(shape)
+                    # The outer dimensions that are not given in the config file must
+                    # be known, otherwise the value can not be expanded.
+                    missing = shape[:len(shape)-depth]
+                    if -1 in missing:
+                        raise ValueError('Option ' + self.name + ' in section ' +
+                                         section.name + ' can not be expanded!')
+                    for n in reversed(missing):
+                        value = [value] * n
+                    return value
 
                 # Now we have an expanded shape, so only two tasks remain:
                 # * auto-expansion
                 # * shape validation
+                if numdim(value) > len(shape):
+                    raise ShapeError(self.name, section.name)
                 value = expand_to_shape(shape, value)
                 if not compare_shapes(shape, get_shape(value)):
                     raise ShapeError(self.name, section.name)
@@ -401,7 +403,7 @@ def expand_shape(shape):
     expanded = [shape[0]]
     for i in range(1, len(shape)):
         next = [shape[i]] * shape[i-1]
-        for j in range(1, i):
+        for j in range(i-2, -1, -1):
             next = [next] * shape[j]
         expanded.append(next)
     return expanded
-- 
2.43.0


From 53455321fe2d29ed4d1a0c95889bb5867f889327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:37 +0000
Subject: [PATCH 19/51] fix: accept empty lists, e.g. strata_contact_models of
 a single stratum

---
 hyvr/input/option_parsing.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hyvr/input/option_parsing.py b/hyvr/input/option_parsing.py
index f384d87..488cab6 100644
--- a/hyvr/input/option_parsing.py
+++ b/hyvr/input/option_parsing.py
@@ -265,6 +265,9 @@ class Option():
                 # if it's flat, it might contain dimensions with -1 that cannot be
                 # autoexpanded. We first need to determine the shape of this dimension.
                 if is_flat(shape):
+                    if value == [] and shape[0] in [0, -1]:
+                        # an empty list has no inner dimensions
+                        return value
                     depth = numdim(value)
                     if depth > len(shape):
                         raise ShapeError(self.name, section.name)
-- 
2.43.0


From 19db2c6e9d8726d534231fb2922b058882a0388c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:37 +0000
Subject: [PATCH 20/51] fix: raise a meaningful error for unknown contact
 surface modes

---
 hyvr/geo/contact_surface.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hyvr/geo/contact_surface.py b/hyvr/geo/contact_surface.py
index 2c76f76..f694431 100644
--- a/hyvr/geo/contact_surface.py
+++ b/hyvr/geo/contact_surface.py
@@ -32,9 +32,12 @@ class ContactSurface:
             self.zmin = self.z
             self.zmax = self.z
 
-        elif self.mode == "dem":
+        elif kwargs['mode'] == "dem":
             raise NotImplementedError("This is not implemented yet!")
 
+        else:
+            raise ValueError("Unknown contact surface mode: " + str(kwargs['mode']))
+
 
 
     def use_lower_surface_value(self, other_surface: 'ContactSurface'):
-- 
2.43.0


From 9889e2343c5fbd90b603984b24d950a64385c436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:30 +0000
Subject: [PATCH 21/51] fix: interpolate along the whole curve, not only along
 its first points

---
 hyvr/optimized.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hyvr/optimized.py b/hyvr/optimized.py
index 09ab430..b8e9603 100644
--- a/hyvr/optimized.py
+++ b/hyvr/optimized.py
@@ -102,6 +102,7 @@ def curve_interp(xc: npt.NDArray[np.float64], yc: npt.NDArray[np.float64],spacin
     t = np.arange(xc[0], nc, spacing * 0.1)
     xc = np.interp(t, np.arange(nc), xc)
     yc = np.interp(t, np.arange(nc), yc)
+    nc = len(xc)
     tol = spacing
     ic, idx = 0, [0]
     while ic < nc:
-- 
2.43.0


From 6e2b30d062e184a48458bdb93c14ba130e5106c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:30 +0000
Subject: [PATCH 22/51] fix: random disturbances of channel centerlines should
 have zero mean

---
 hyvr/geo/channel_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/geo/channel_utils.py b/hyvr/geo/channel_utils.py
index 3aaadba..25132ef 100644
--- a/hyvr/geo/channel_utils.py
+++ b/hyvr/geo/channel_utils.py
@@ -130,7 +130,7 @@ def ferguson_theta(s, eps_factor, k, h):
         else:
             t1 = th_store[idex-1]
             t2 = th_store[idex-2]
-            eps = np.random.normal(1)*eps_factor
+            eps = np.random.normal()*eps_factor
 
         th_store[idex] = thetaAR2(t1, t2, k, h, eps)
 
-- 
2.43.0


From ee8bf179f445081f1840ddeb5da03ae3a4acf2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:30 +0000
Subject: [PATCH 23/51] fix: channels with size_ztrend

---
 hyvr/geo/channel_ae.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/geo/channel_ae.py b/hyvr/geo/channel_ae.py
index 4bee6cf..9395df7 100644
--- a/hyvr/geo/channel_ae.py
+++ b/hyvr/geo/channel_ae.py
@@ -89,7 +89,7 @@ class ChannelAE(AERealization):
         dz = self.type_params['agg']
         if self.type_params['size_ztrend'] is not None:
             z = 0.5*(self.top_surface.zmean + self.bottom_surface.zmean)
-            zfactor = np.interp(z, [grid.z0, grid.zmax], *self.type_params['size_ztrend'])
+            zfactor = np.interp(z, [grid.z0, grid.zmax], self.type_params['size_ztrend'])
         else:
             zfactor = 1
         depth = self.type_params['depth'] * zfactor
-- 
2.43.0


From ebc9463dc5d9de83ac27fe6f8ad1526295c7bb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:30 +0000
Subject: [PATCH 24/51] fix: start of channels in grids with nonzero origin

---
 hyvr/geo/channel_ae.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyvr/geo/channel_ae.py b/hyvr/geo/channel_ae.py
index 9395df7..bdcac02 100644
--- a/hyvr/geo/channel_ae.py
+++ b/hyvr/geo/channel_ae.py
@@ -110,8 +110,8 @@ class ChannelAE(AERealization):
 
             for i in range(n_channels):
                 # get start of channel
-                ystart_grid = (grid.y0 + grid.ly)/2 - (domain_length+width)/2 * np.sin(flow_angle) + ystart[i] * np.cos(flow_angle)
-                xstart_grid = (grid.x0 + grid.lx)/2 - (domain_length+width)/2 * np.cos(flow_angle) - ystart[i] * np.sin(flow_angle)
+                ystart_grid = grid.y0 + grid.ly/2 - (domain_length+width)/2 * np.sin(flow_angle) + ystart[i] * np.cos(flow_angle)
+                xstart_grid = grid.x0 + grid.lx/2 - (domain_length+width)/2 * np.cos(flow_angle) - ystart[i] * np.sin(flow_angle)
                 # generate centerline
                 outputs = ferguson_curve(grid,
                                          self.type_params['h'],
-- 
2.43.0


From 0d2934f11b2f4713ee0b84e98dd9b614ae2c68b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:30 +0000
Subject: [PATCH 25/51] fix: number and thickness of dipping layers

---
 hyvr/geo/channel.py    | 7 +++----
 hyvr/geo/channel_ae.py | 2 +-
 hyvr/geo/sheet.py      | 4 ++--
 hyvr/geo/sheet_ae.py   | 2 +-
 hyvr/geo/trough.py     | 2 +-
 hyvr/geo/trough_ae.py  | 4 ++--
 6 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/hyvr/geo/channel.py b/hyvr/geo/channel.py
index 61e3ea5..0c0e1b6 100644
--- a/hyvr/geo/channel.py
+++ b/hyvr/geo/channel.py
@@ -101,10 +101,9 @@ class Channel:
             # The respective facies will be stored in an array such
             # that the zero-plane is in the center.
             # The longest distance along the curve is the length of the curve
-            self.num_facies = int(
-                np.ceil(curve_dist*self.sin_dip/self.layer_dist + self.shift)
-                + np.ceil(self.depth/self.layer_dist)
-            )
+            self.num_facies = 2*int(np.ceil(
+                (curve_dist*np.abs(self.sin_dip) + self.depth + self.shift)/self.layer_dist
+            ))
             self.num_facies += 10  # just to be sure
             self.facies_array = hu.get_alternating_facies(self.num_facies, type_params)
         else:
diff --git a/hyvr/geo/channel_ae.py b/hyvr/geo/channel_ae.py
index bdcac02..1d0d970 100644
--- a/hyvr/geo/channel_ae.py
+++ b/hyvr/geo/channel_ae.py
@@ -202,7 +202,7 @@ class ChannelAE(AERealization):
                 # To correct for the distance in z-direction we subtract |dz| * cos(dip)
                 # note that dz is negative here
                 d = self.object_dist_along_curve[oi, x_idx, y_idx] * self.object_sin_dip[oi] + dz*self.object_cos_dip[oi] + self.object_shift[oi]
-                n = int(d/self.object_layer_dist[oi])
+                n = int(np.floor(d/self.object_layer_dist[oi])) + self.object_num_facies[oi]//2
                 geo_ids[0] = self.object_facies_array[oi,n]
                 return
             else:
diff --git a/hyvr/geo/sheet.py b/hyvr/geo/sheet.py
index 1f1fc1c..a4739a2 100644
--- a/hyvr/geo/sheet.py
+++ b/hyvr/geo/sheet.py
@@ -73,9 +73,9 @@ class Sheet:
             self.shift += np.random.rand() * self.layer_dist
 
 
-            # The maximum amount of necessary layers is max(lx, ly, lz)/layer_dist
+            # No point is further away from the zero-plane than lx + ly + lz
             # 10 is added just to be sure
-            self.num_facies = int(np.ceil((max(grid.ly, grid.ly, grid.lz) + self.shift)/self.layer_dist)) + 10
+            self.num_facies = 2*int(np.ceil((grid.lx + grid.ly + grid.lz)/self.layer_dist)) + 10
             self.facies_array = hu.get_alternating_facies(self.num_facies, type_params)
         else:
             # massive internal structure
diff --git a/hyvr/geo/sheet_ae.py b/hyvr/geo/sheet_ae.py
index 8a1b806..a135ff1 100644
--- a/hyvr/geo/sheet_ae.py
+++ b/hyvr/geo/sheet_ae.py
@@ -152,7 +152,7 @@ class SheetAE(AERealization):
         geo_ids[2] = self.object_num_ha[oi]
         if self.object_dipsets[oi]:
             d = self.object_normvec_x[oi]*x + self.object_normvec_y[oi]*y + self.object_normvec_z[oi]*z - self.object_shift[oi]
-            n = int(d/self.object_layer_dist[oi]) + self.object_num_facies[oi]//2
+            n = int(np.floor(d/self.object_layer_dist[oi])) + self.object_num_facies[oi]//2
             geo_ids[0] = self.object_facies_array[oi,n]
             return
         else:
diff --git a/hyvr/geo/trough.py b/hyvr/geo/trough.py
index e0c4149..442946a 100644
--- a/hyvr/geo/trough.py
+++ b/hyvr/geo/trough.py
@@ -155,7 +155,7 @@ class Trough:
 
             # The facies changes with every distance `layer_dist` to the zero
             # plane. The maximum number of different facies is:
-            self.num_facies = int(np.ceil((2*max(a, b, c) + self.shift)/self.layer_dist)) + 2
+            self.num_facies = 2*int(np.ceil((max(a, b, c) + self.shift)/self.layer_dist)) + 2
             self.facies_array = hu.get_alternating_facies(self.num_facies, type_params)
         elif self.structure == 2: # bulb
             self.facies = np.random.choice(type_params['facies'])
diff --git a/hyvr/geo/trough_ae.py b/hyvr/geo/trough_ae.py
index a30354b..941e3b9 100644
--- a/hyvr/geo/trough_ae.py
+++ b/hyvr/geo/trough_ae.py
@@ -1,7 +1,7 @@
 
 import numpy as np
 import numpy.typing as npt
-from math import sqrt, ceil, acos, pi, fabs, atan
+from math import sqrt, ceil, floor, acos, pi, fabs, atan
 
 from hyvr.geo.trough_utils import *
 from hyvr.geo.trough import Trough
@@ -179,7 +179,7 @@ class TroughAE(AERealization):
                          dy*self.object_normvec_y[oi] +\
                          dz*self.object_normvec_z[oi] + self.object_shift[oi]
             # get index in facies vector, where n = len(facies)//2 at d=0
-            n = int(plane_dist/self.object_layer_dist[oi]) + self.object_num_facies[oi]//2
+            n = int(floor(plane_dist/self.object_layer_dist[oi])) + self.object_num_facies[oi]//2
             geo_ids[0] = self.object_facies_array[oi,n]
             angles[0] = self.object_azim[oi]
             angles[1] = self.object_dip[oi]
-- 
2.43.0


From 872a67310f1b91a44203098258256c975c782ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:30 +0000
Subject: [PATCH 26/51] fix: sort manually placed troughs from top to bottom

---
 hyvr/geo/trough_ae.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyvr/geo/trough_ae.py b/hyvr/geo/trough_ae.py
index 941e3b9..2400fdc 100644
--- a/hyvr/geo/trough_ae.py
+++ b/hyvr/geo/trough_ae.py
@@ -67,7 +67,8 @@ class TroughAE(AERealization):
                 self.bottom_surface, self.top_surface, self.type_params, grid
             )
         else:
-            te_xyz = self.type_params['te_xyz']
+            # objects must be sorted from top to bottom
+            te_xyz = sorted(self.type_params['te_xyz'], key=lambda xyz: -xyz[2])
 
         # Generate troughs
         for xc, yc, zc in te_xyz:
-- 
2.43.0


From a85ef203de1737e8a38a14f77623031a0215030d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:30 +0000
Subject: [PATCH 27/51] fix: periodic troughs that migrated by more than one
 period

---
 hyvr/geo/trough_ae.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/hyvr/geo/trough_ae.py b/hyvr/geo/trough_ae.py
index 2400fdc..00c85a0 100644
--- a/hyvr/geo/trough_ae.py
+++ b/hyvr/geo/trough_ae.py
@@ -129,14 +129,8 @@ class TroughAE(AERealization):
         dy = y - object_y
         dz = z - object_z
         if grid.periodic:
-            if dx > grid.lx/2:
-                dx -= grid.lx
-            elif dx < -grid.lx/2:
-                dx += grid.lx
-            if dy > grid.ly/2:
-                dy -= grid.ly
-            elif dy < -grid.ly/2:
-                dy += grid.ly
+            dx -= grid.lx*floor(dx/grid.lx + 0.5)
+            dy -= grid.ly*floor(dy/grid.ly + 0.5)
         # it seems to me that this is a bit faster than abs, and speed here is critical
         max_ab = self.object_max_ab[oi]
         if dx > max_ab or -dx > max_ab or dy > max_ab or -dy > max_ab or dz > 0:
-- 
2.43.0


From 113a792eb902a61d24dc25bac45fab2ca92a482f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:30 +0000
Subject: [PATCH 28/51] fix: gradient of rotated bulbs

---
 hyvr/geo/trough_ae.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyvr/geo/trough_ae.py b/hyvr/geo/trough_ae.py
index 00c85a0..b331543 100644
--- a/hyvr/geo/trough_ae.py
+++ b/hyvr/geo/trough_ae.py
@@ -190,8 +190,8 @@ class TroughAE(AERealization):
             #
             # The gradient is (up to a scalar)
             #
-            #             /  nx*cos/a + ny*sin/b  \
-            # grad f(x) = | -nx*sin/a + ny*cos/b  |
+            #             /  nx*cos/a - ny*sin/b  \
+            # grad f(x) = |  nx*sin/a + ny*cos/b  |
             #             \          nz/c         /
             #
             # where nx, ny, nz are the normalized distances.
@@ -210,8 +210,8 @@ class TroughAE(AERealization):
             len_normvec = sqrt(aaa**2 + bbb**2 + ccc**2)
             if len_normvec != 0:
                 normvec_x = (aaa*self.object_cosalpha[oi]
-                             + bbb*self.object_sinalpha[oi])/len_normvec
-                normvec_y = (-aaa*self.object_sinalpha[oi]
+                             - bbb*self.object_sinalpha[oi])/len_normvec
+                normvec_y = (aaa*self.object_sinalpha[oi]
                              + bbb*self.object_cosalpha[oi])/len_normvec
                 normvec_z = ccc/len_normvec
                 len_normvec_xy = sqrt(normvec_x**2 + normvec_y**2)
-- 
2.43.0


From f5cca0fd37a6532c47a1f4628cd5a6063097e37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:20 +0000
Subject: [PATCH 29/51] fix: respect the overwrite flag that is passed to
 set_up_directories

---
 hyvr/input/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index 532af78..b85041f 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -498,7 +498,7 @@ def set_up_directories(run, inifile, overwrite_old_output=None):
     if overwrite_old_output is None:
         overwrite_old_output = run['overwrite_old_output']
     if run['rundir'].exists():
-        if run['overwrite_old_output'] is True:
+        if overwrite_old_output:
             # If it exists, we just delete everything in it
             for f in os.listdir(run['rundir']):
                 path = os.path.join(run['rundir'], f)
-- 
2.43.0


From 5c767c43f216209672703c615919f52355feb280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:20 +0000
Subject: [PATCH 30/51] fix: overwrite run directories that contain symbolic
 links

---
 hyvr/input/parameters.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index b85041f..ce5a2d1 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -503,10 +503,10 @@ def set_up_directories(run, inifile, overwrite_old_output=None):
             for f in os.listdir(run['rundir']):
                 path = os.path.join(run['rundir'], f)
                 path = run['rundir'] / f
-                if path.is_file():
-                    path.unlink()
-                elif path.is_dir():
+                if path.is_dir() and not path.is_symlink():
                     shutil.rmtree(path)
+                else:
+                    path.unlink()
         else:
             raise FileExistsError(
                 "Run directory already exists and overwrite flag is "
-- 
2.43.0


From a080f19a8505a4982b9508ae08565f1121e5f7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:20 +0000
Subject: [PATCH 31/51] fix: modeldir option

---
 hyvr/input/parameters.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index ce5a2d1..8a1bf37 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -145,14 +145,16 @@ def parameters(inifile):
         # either inipath or the chosen modeldir
         if run['modeldir'] is None:
             run['modeldir'] = ini_path
-        if run['modeldir'] == 'select':
+        elif run['modeldir'] == 'select':
             directory = input(
                 'Please input the model directory save path, or press <enter> to'
                 'save in default directory:\n')
-            if len(run['modeldir']) == 0:
-                run['modeldir'] = inipath
+            if len(directory) == 0:
+                run['modeldir'] = ini_path
             else:
                 run['modeldir'] = pathlib.Path(directory).resolve()
+        else:
+            run['modeldir'] = pathlib.Path(run['modeldir']).resolve()
         run['rundir'] = run['modeldir'] / run['runname']
 
     return run, model, strata, hydraulics, flowtrans, elements
-- 
2.43.0


From 2038b902787e4b669a6edddd337a8641b4f79b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:20 +0000
Subject: [PATCH 32/51] fix: raise the intended errors for invalid parameter
 files

---
 hyvr/input/parameters.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index 8a1bf37..1ed60bd 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -101,9 +101,9 @@ def parameters(inifile):
         # this is probably caused by a wrong encoding
         p.read(inifile, encoding='utf-8-sig')
     if len(p.sections()) == 0:
-        raise FileNotFoundError("Parameter file {:s} not found!".format(inifile))
+        raise FileNotFoundError("Parameter file {:s} not found!".format(str(inifile)))
 
-    old_format = 'dataoutputs' in dict(p['run'])
+    old_format = p.has_option('run', 'dataoutputs')
     if old_format:
         run, model, strata, hydraulics, flowtrans, elements = get_new_parameters_from_deprecated(*parse_deprecated_inifile(p))
 
@@ -228,7 +228,7 @@ def parse_inifile(p):
     try:
         strata['bg_facies'] = parse_facies(strata['bg_facies'], hydraulics['hydrofacies'])
     except:
-        raise ValueError('Invalid facies string in strata section in option bg_facies: ' + strata['bg_facies'])
+        raise ValueError('Invalid facies string in strata section in option bg_facies: ' + str(strata['bg_facies']))
 
 
     # flowtrans section
-- 
2.43.0


From a9497b68f3305e272ec40c260a9ccd3ff56bc274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:20 +0000
Subject: [PATCH 33/51] fix: require bulbset_dist for bulb_sets instead of bulb

---
 hyvr/input/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index 1ed60bd..8ccb61a 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -282,7 +282,7 @@ def parse_inifile(p):
         if elements[section]['structure'] == 'dip' or elements[section]['structure'] == 'random':
             assert_exists('dipset_dist', dictionary, section)
         # if structure is 'bulb_sets', require 'bulbset_dist'
-        if elements[section]['structure'] == 'bulb' or elements[section]['structure'] == 'random':
+        if elements[section]['structure'] == 'bulb_sets' or elements[section]['structure'] == 'random':
             assert_exists('bulbset_dist', dictionary, section)
 
         # lag surface facies
-- 
2.43.0


From a3ac4a239aa6b3b4d13ad390fa4810914c87ab1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:20 +0000
Subject: [PATCH 34/51] fix: contact_model is a required option

---
 hyvr/input/options.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/input/options.py b/hyvr/input/options.py
index a4edcab..1cfde56 100644
--- a/hyvr/input/options.py
+++ b/hyvr/input/options.py
@@ -78,7 +78,7 @@ options['strata'] = [
 element_options = [
     Option('geometry', str, optional=False,
            validation_func=lambda x: x in ['trough', 'channel', 'sheet']),
-    Option('contact_model', list, optional=True, shape=[-1], datatype=str),
+    Option('contact_model', list, optional=False, shape=[-1], datatype=str),
     Option('facies', list, optional=False, shape=[-1], datatype=str),
     Option('altfacies', list, optional=True, shape=['facies', -1], datatype=str),
     Option('size_ztrend', list, optional=True, shape=2, datatype=float),
-- 
2.43.0


From 04da54e7c191e7a45470d36703480ffa3ded6b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:39 +0000
Subject: [PATCH 35/51] fix: contact models are case-insensitive

---
 hyvr/geo/contact_surface_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/geo/contact_surface_utils.py b/hyvr/geo/contact_surface_utils.py
index bdf9b30..41d2051 100644
--- a/hyvr/geo/contact_surface_utils.py
+++ b/hyvr/geo/contact_surface_utils.py
@@ -1,7 +1,7 @@
 import numpy as np
 
 def parse_contact_model(param_list, depth=False):
-    mode = param_list[0].strip("\"'")
+    mode = param_list[0].strip("\"'").lower()
     cm = {'mode': mode}
     param_idx = 1
     if depth:
-- 
2.43.0


From 7a0266242eadd44dc19804b7066a1118a6ed47d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:27 +0000
Subject: [PATCH 36/51] fix: always write one cell edge more than cells to vtr
 files

---
 hyvr/postprocess/output.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyvr/postprocess/output.py b/hyvr/postprocess/output.py
index 867fc1e..2579b11 100644
--- a/hyvr/postprocess/output.py
+++ b/hyvr/postprocess/output.py
@@ -155,9 +155,9 @@ def to_vtr(model, fname):
     try:
         from pyevtk.hl import gridToVTK
         data_dict = {key:model.data[key] for key in model.data if key != "ktensors"}
-        xv = np.arange(model.grid.x0, model.grid.xmax+model.grid.dx, model.grid.dx)
-        yv = np.arange(model.grid.y0, model.grid.ymax+model.grid.dy, model.grid.dy)
-        zv = np.arange(model.grid.z0, model.grid.zmax+model.grid.dz, model.grid.dz)
+        xv = model.grid.x0 + np.arange(model.grid.nx + 1)*model.grid.dx
+        yv = model.grid.y0 + np.arange(model.grid.ny + 1)*model.grid.dy
+        zv = model.grid.z0 + np.arange(model.grid.nz + 1)*model.grid.dz
         gridToVTK(fname, xv, yv, zv, cellData=data_dict)
     except ImportError as e:
         raise type(e)(str(e) + ", vtr output not possible!")
-- 
2.43.0


From b8546739bb6734d0b1fde77b4c22b2015529b7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:27 +0000
Subject: [PATCH 37/51] fix: order of layers, rows, and columns in MODFLOW
 output

---
 hyvr/postprocess/output.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/hyvr/postprocess/output.py b/hyvr/postprocess/output.py
index 2579b11..79f220d 100644
--- a/hyvr/postprocess/output.py
+++ b/hyvr/postprocess/output.py
@@ -192,26 +192,26 @@ def to_modflow(model, fname):
     ztop = model.grid.z0 + model.grid.lz
     zbot = model.grid.z0
     botm = np.linspace(ztop, zbot, model.grid.nz + 1)
-    dis = flopy.modflow.ModflowDis(mf, model.grid.nz, model.grid.nx, model.grid.ny, 
+    dis = flopy.modflow.ModflowDis(mf, model.grid.nz, model.grid.ny, model.grid.nx,
                                    delr=model.grid.dx, delc=model.grid.dy,
                                    top=ztop, botm=botm[1:])
 
     # Variables for the BAS package
-    ibound = np.ones((model.grid.nz, model.grid.nx, model.grid.ny), dtype=np.int32)
+    ibound = np.ones((model.grid.nz, model.grid.ny, model.grid.nx), dtype=np.int32)
     ibound[:, :, 0] = -1
     ibound[:, :, -1] = -1
 
-    strt = np.ones((model.grid.nz, model.grid.nx, model.grid.ny), dtype=np.float32)
+    strt = np.ones((model.grid.nz, model.grid.ny, model.grid.nx), dtype=np.float32)
     strt[:, :, 0] = model.flowtrans['hin'][0]
     strt[:, :, -1] = model.flowtrans['hout'][0]
 
     bas = flopy.modflow.ModflowBas(mf, ibound=ibound, strt=strt)
 
-    # Assign hydraulic conductivity
-    hyvr_hk = np.transpose(model.data['k_iso'], (2, 0, 1))
+    # Assign hydraulic conductivity, the first layer in MODFLOW is the topmost
+    hyvr_hk = np.transpose(model.data['k_iso'], (2, 1, 0))[::-1]
     hyvr_layvka = 1                                           # VKA dataset is ratio of horizontal K
     if 'anirat' in model.data.keys():
-        hyvr_vka = np.transpose(model.data['anirat'], (2, 0, 1))
+        hyvr_vka = np.transpose(model.data['anirat'], (2, 1, 0))[::-1]
 
         # Add LPF package to the MODFLOW model
         lpf = flopy.modflow.ModflowLpf(mf,                        # Modflow object
-- 
2.43.0


From c4bc8d6d3be38e2bcf15417d56619f936e261643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:42 +0000
Subject: [PATCH 38/51] fix: MF6 output with current flopy versions, order of
 layers, and cell sizes

---
 hyvr/postprocess/output.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/hyvr/postprocess/output.py b/hyvr/postprocess/output.py
index 79f220d..3645d60 100644
--- a/hyvr/postprocess/output.py
+++ b/hyvr/postprocess/output.py
@@ -255,13 +255,13 @@ def to_mf6(model, fname):
     mfdir.mkdir(parents=True, exist_ok=True)
     mfname = str(mfdir / runname)
 
-    # Transpose HyVR arrays for MF6 input
+    # Transpose HyVR arrays for MF6 input, the first layer in MF6 is the topmost
     transpose_order = (2, 1, 0)
-    k_iso = np.transpose(model.data['k_iso'], transpose_order)
+    k_iso = np.transpose(model.data['k_iso'], transpose_order)[::-1]
     if set(['anirat', 'dip', 'azim']).issubset(model.data.keys()):
-        anirat = np.transpose(model.data['anirat'], transpose_order)
-        dip = np.transpose(model.data['dip'], transpose_order)
-        azim = np.transpose(model.data['azim'], transpose_order)
+        anirat = np.transpose(model.data['anirat'], transpose_order)[::-1]
+        dip = np.transpose(model.data['dip'], transpose_order)[::-1]
+        azim = np.transpose(model.data['azim'], transpose_order)[::-1]
         xt3d = True
     else:
         xt3d = False
@@ -284,11 +284,11 @@ def to_mf6(model, fname):
     ims = flopy.mf6.ModflowIms(sim,
                                print_option='SUMMARY',
                                complexity='COMPLEX',
-                               outer_hclose=1e-3,
+                               outer_dvclose=1e-3,
                                outer_maximum=500,
                                under_relaxation='NONE',
                                inner_maximum=100,
-                               inner_hclose=1e-4,
+                               inner_dvclose=1e-4,
                                rcloserecord=0.001,
                                linear_acceleration='BICGSTAB',
                                scaling_method='NONE',
@@ -299,13 +299,13 @@ def to_mf6(model, fname):
     """ Create discretization """
     ztop = model.grid.z0 + model.grid.lz
     zbot = model.grid.z0
-    botm = np.around(np.arange(ztop, zbot-model.grid.dz, -model.grid.dz), decimals=3)
+    botm = np.linspace(ztop, zbot, model.grid.nz + 1)
     dis = flopy.mf6.modflow.mfgwfdis.ModflowGwfdis(gwf,
                                                    nlay=model.grid.nz,
                                                    nrow=model.grid.ny,
                                                    ncol=model.grid.nx,
-                                                   delr=model.grid.dy,
-                                                   delc=model.grid.dx,
+                                                   delr=model.grid.dx,
+                                                   delc=model.grid.dy,
                                                    top=ztop,
                                                    botm=botm[1:],
                                                    filename='{}.dis'.format(runname))
@@ -329,9 +329,9 @@ def to_mf6(model, fname):
         hin = model.flowtrans['hin'][0]
         hout = model.flowtrans['hout'][0]
 
-    elif flowtrans['gradh'] is not None:
+    elif model.flowtrans['gradh'] is not None:
         hout = 1
-        hin = hout + model.grid.lx * flowtrans['gradh']
+        hin = hout + model.grid.lx * model.flowtrans['gradh']
 
     if np.any([model.flowtrans['hin'] is not None, model.flowtrans['gradh'] is not None]):
         chd_rec = []
-- 
2.43.0


From 38508146254ea98f149f00df03563b50a544bece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:23 +0000
Subject: [PATCH 39/51] fix: conversion of elements in the deprecated ini-file
 format

---
 hyvr/input/parameters.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index 8ccb61a..24fdea1 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -343,9 +343,9 @@ def get_new_parameters_from_deprecated(run, model, strata, hydraulics, flowtrans
         elem = elements[elem_name]
         elem['size_ztrend'] = elem['geo_ztrend']
         if elem['bg'] is not None:
-            elem['bg_facies'] = elem['bg'][0]
+            elem['bg_facies'] = int(elem['bg'][0])
             elem['bg_azim'] = elem['bg'][1]
-            elem['bg_dip'] = elem['bg'][1]
+            elem['bg_dip'] = elem['bg'][2]
         else:
             elem['bg_facies'] = -1
             elem['bg_azim'] = float('NaN')
@@ -356,11 +356,18 @@ def get_new_parameters_from_deprecated(run, model, strata, hydraulics, flowtrans
         if elem['geometry'] == 'trunc_ellip':
             elem['geometry'] = 'trough'
             elem['trough_density'] = elem['el_z']
+            if elem['structure'] == 'bulb_l':
+                elem['structure'] = 'bulb_sets'
+        elif elem['geometry'] == 'ext_par':
+            elem['geometry'] = 'channel'
+            elem['channel_no'] = int(elem['channel_no'])
+            elem['mig'] = 0.
+            elem['flow_angle'] = 0.
         elem['contact_model'] = parse_old_elem_contact_model(elem)
         if elem['geometry'] in ['trough', 'channel']:
             if elem['lag'] is not None:
                 elem['lag_height'] = elem['lag'][0]
-                elem['lag_facies'] = elem['lag'][1]
+                elem['lag_facies'] = int(elem['lag'][1])
             else:
                 elem['lag_height'] = 0.0
                 elem['lag_facies'] = -1
-- 
2.43.0


From b993f3fc1cd1fcae8ffa5f703c7f7afc5cebfe70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:23 +0000
Subject: [PATCH 40/51] fix: index of plotted cross sections

---
 hyvr/postprocess/plotting.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyvr/postprocess/plotting.py b/hyvr/postprocess/plotting.py
index 7e677c2..ba1c552 100644
--- a/hyvr/postprocess/plotting.py
+++ b/hyvr/postprocess/plotting.py
@@ -46,7 +46,7 @@ def cross_section_pcolor(model, field, y=None, x=None, log=False, xlim_y=None, y
 
     for yi in y:
         fig, ax = plt.subplots()
-        y_index = int(np.round((yi-(model.grid.y0+model.grid.dy/2)/model.grid.dy)))
+        y_index = int(np.round((yi-(model.grid.y0+model.grid.dy/2))/model.grid.dy))
         if 0 <= y_index and y_index < model.grid.ny:
             im = ax.pcolor(model.grid.X[:,y_index,:].T, model.grid.Z[:,y_index,:].T,
                     model.data[field][:,y_index,:].T, cmap=cmap)
@@ -57,13 +57,13 @@ def cross_section_pcolor(model, field, y=None, x=None, log=False, xlim_y=None, y
             if ylim_y is not None: ax.set_ylim(ylim_y)
             ax.set_aspect('equal')
             fig.colorbar(im, ax=ax)
-            plt.show(fig)
+            plt.show()
         else:
             print("Warning: y = {:.2f} not in model domain".format(yi), file=sys.stderr)
 
     for xi in x:
         fig, ax = plt.subplots()
-        x_index = int(np.round((xi-(model.grid.x0+model.grid.dx/2)/model.grid.dx)))
+        x_index = int(np.round((xi-(model.grid.x0+model.grid.dx/2))/model.grid.dx))
         if 0 <= x_index and x_index < model.grid.nx:
             im = ax.pcolor(model.grid.Y[x_index,:,:].T, model.grid.Z[x_index,:,:].T,
                     model.data[field][x_index,:,:].T, cmap=cmap)
@@ -74,7 +74,7 @@ def cross_section_pcolor(model, field, y=None, x=None, log=False, xlim_y=None, y
             if ylim_x is not None: ax.set_ylim(ylim_x)
             ax.set_aspect('equal')
             fig.colorbar(im, ax=ax)
-            plt.show(fig)
+            plt.show()
         else:
             print("Warning: x = {:.2f} not in model domain".format(xi), file=sys.stderr)
 
-- 
2.43.0


From 356c66fec9344ca3977e21f971a49b0487580ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:54 +0000
Subject: [PATCH 41/51] fix: reject files without a section for an
 architectural element before old output is deleted

---
 hyvr/input/parameters.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index 24fdea1..1a5ee4b 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -111,6 +111,12 @@ def parameters(inifile):
     else:
         run, model, strata, hydraulics, flowtrans, elements = parse_inifile(p)
 
+    # every architectural element that is used needs a section
+    for ae_names in strata['ae_in_strata']:
+        for name in ae_names:
+            if name not in elements:
+                raise MissingSectionError(name)
+
     # Runname and Modeldir
     # ====================
     # The following code sets
-- 
2.43.0


From f08fc89c4c4447d0f00492be0a2ec8a1ebd05005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:32 +0000
Subject: [PATCH 42/51] fix: do not use the model directory as run directory if
 the run name is empty

---
 hyvr/input/parameters.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index 1a5ee4b..fa20b10 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -129,11 +129,13 @@ def parameters(inifile):
     # in the test case runname is given
     ini_path = pathlib.Path(inifile).parent.resolve()
     ini_name = pathlib.Path(inifile).name
-    if run['runname'] is None:
-        if ini_name.endswith("autogenerated_backup.ini"):
+    # An empty run name is treated like a missing one, otherwise the run directory
+    # would be the model directory and everything in it might get deleted.
+    if not run['runname']:
+        if ini_name.endswith("_autogenerated_backup.ini"):
             run['runname'] = ini_name[0:-25]
         else:
-            run['runname'] = ".".join(ini_name.split('.')[0:-1])
+            run['runname'] = pathlib.Path(ini_name).stem
 
 
     # separate task: find modeldir
-- 
2.43.0


From 7bd267068f60ca43543b42868c806760f607a73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:51 +0000
Subject: [PATCH 43/51] fix: recognize the alternative names of output options
 in deprecated ini-files

---
 hyvr/input/parameters.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index fa20b10..7244f85 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -103,7 +103,9 @@ def parameters(inifile):
     if len(p.sections()) == 0:
         raise FileNotFoundError("Parameter file {:s} not found!".format(str(inifile)))
 
-    old_format = p.has_option('run', 'dataoutputs')
+    # these options only exist in the old format
+    old_format = any(p.has_option('run', name) for name in
+                     ['dataoutputs', 'l_dataoutputs', 'modeloutputs', 'l_modeloutputs'])
     if old_format:
         run, model, strata, hydraulics, flowtrans, elements = get_new_parameters_from_deprecated(*parse_deprecated_inifile(p))
 
-- 
2.43.0


From 05cca53a850d978211166547da42e975de4cdbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:48 +0000
Subject: [PATCH 44/51] fix: no additional sheet due to round-off in massive
 sheet elements

---
 hyvr/geo/sheet_ae.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyvr/geo/sheet_ae.py b/hyvr/geo/sheet_ae.py
index a135ff1..bd2c09e 100644
--- a/hyvr/geo/sheet_ae.py
+++ b/hyvr/geo/sheet_ae.py
@@ -60,8 +60,8 @@ class SheetAE(AERealization):
         # non-flat contact surfaces as they use the contact surface of the AE.
 
         if self.type_params['lens_thickness'] == -1:
-            # massive bedding
-            thickness = self.zmax - self.zmin
+            # massive bedding, the only sheet is also the lowest one
+            thickness = np.inf
         elif self.type_params['size_ztrend'] is not None:
             zfactor = np.interp(np.mean([self.zmin, self.zmax]),
                                 [grid.z0, grid.zmax],
-- 
2.43.0


From 88d407f622e8895542c07208df8016c1640b9694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:56 +0000
Subject: [PATCH 45/51] fix: start the interpolation along a curve at its first
 point

---
 hyvr/optimized.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/optimized.py b/hyvr/optimized.py
index b8e9603..1cbc193 100644
--- a/hyvr/optimized.py
+++ b/hyvr/optimized.py
@@ -99,7 +99,7 @@ def curve_interp(xc: npt.NDArray[np.float64], yc: npt.NDArray[np.float64],spacin
 
     nc = len(xc)
 
-    t = np.arange(xc[0], nc, spacing * 0.1)
+    t = np.arange(0, nc, spacing * 0.1)
     xc = np.interp(t, np.arange(nc), xc)
     yc = np.interp(t, np.arange(nc), yc)
     nc = len(xc)
-- 
2.43.0


From 834eaa0b3873a0102f2dd7a917b68716ba8c3bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:26 +0000
Subject: [PATCH 46/51] fix: do not end channels with a small step length
 before the end of the domain

---
 hyvr/geo/channel_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hyvr/geo/channel_utils.py b/hyvr/geo/channel_utils.py
index 25132ef..0832ac3 100644
--- a/hyvr/geo/channel_utils.py
+++ b/hyvr/geo/channel_utils.py
@@ -46,8 +46,9 @@ def ferguson_curve(grid, h, k, ds, eps_factor, flow_angle, domain_length, xstart
     # Calculate curve directions
     theta = ferguson_theta(s, eps_factor, k, h)
 
-    # Interpolate curve direction over interval of interest
-    s_interp, th_interp = curve_interp(s, theta, 0.1)
+    # Interpolate curve direction over interval of interest. The points must not
+    # be further apart than ds, otherwise the curve becomes too short.
+    s_interp, th_interp = curve_interp(s, theta, min(0.1, ds))
 
     # Storage array
     outputs = np.zeros((len(th_interp), 4))
-- 
2.43.0


From c0d923d5243f42341b2abb5f91f8d36152cf9cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:45 +0000
Subject: [PATCH 47/51] fix: old-format files with a layered structure but no
 layer distance are rejected before old output is deleted

---
 hyvr/input/parameters.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index 7244f85..ae7671c 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -360,6 +360,11 @@ def get_new_parameters_from_deprecated(run, model, strata, hydraulics, flowtrans
             elem['bg_facies'] = -1
             elem['bg_azim'] = float('NaN')
             elem['bg_dip'] = float('NaN')
+        # layered structures require the distance of the layers
+        if elem['structure'] in ['dip', 'random'] and elem['dipset_d'] is None:
+            raise MissingOptionError('dipset_d', elem_name)
+        if elem['structure'] in ['bulb_l', 'random'] and elem['bulbset_d'] is None:
+            raise MissingOptionError('bulbset_d', elem_name)
         elem['dipset_dist'] = elem['dipset_d']
         if 'bulbset_d' in elem:
             elem['bulbset_dist'] = elem['bulbset_d']
-- 
2.43.0


From b925644a6be6685a5d0b4dc370176d12943c88bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:04 +0000
Subject: [PATCH 48/51] fix: facies numbers of old-format files are checked
 before old output is deleted

---
 hyvr/input/parameters.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index ae7671c..8c262f5 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -389,6 +389,20 @@ def get_new_parameters_from_deprecated(run, model, strata, hydraulics, flowtrans
 
 
 
+    # facies are given by their number
+    n_facies = len(hydraulics['hydrofacies'])
+    assert_facies_number([strata['bg_facies'][0]], n_facies, 'strata', 'bg')
+    for elem_name in elements:
+        elem = elements[elem_name]
+        assert_facies_number(elem['facies'], n_facies, elem_name, 'facies')
+        if elem['altfacies'] is not None:
+            for altfacies in elem['altfacies']:
+                assert_facies_number(altfacies, n_facies, elem_name, 'altfacies')
+        if elem['bg'] is not None:
+            assert_facies_number([elem['bg_facies']], n_facies, elem_name, 'bg')
+        if elem['geometry'] in ['trough', 'channel'] and elem['lag_height'] != 0.0:
+            assert_facies_number([elem['lag_facies']], n_facies, elem_name, 'lag')
+
     return run, model, strata, hydraulics, flowtrans, elements
 
 
@@ -401,6 +415,14 @@ def parse_facies(facies_list, hydrofacies):
         hydrofacies.index(facies) for facies in facies_list
     ]
 
+def assert_facies_number(facies_list, n_facies, section, option):
+    """
+    Checks that all facies numbers refer to one of the ``n_facies`` hydrofacies.
+    """
+    for facies in facies_list:
+        if not 0 <= facies < n_facies:
+            raise ValueError('Invalid facies in section ' + section + ' in option ' + option + ': ' + str(facies))
+
 def get_new_facies_list(facies_list, hydrofacies):
     return [hydrofacies[i] for i in facies_list]
 
-- 
2.43.0


From aa3478fb32044438ea084332e2280505f5266d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:53 +0000
Subject: [PATCH 49/51] fix: write the backup of the parameter file as UTF-8
 like it is read, independently of the locale

---
 hyvr/input/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index 8c262f5..1dfb0db 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -563,5 +563,5 @@ def set_up_directories(run, inifile, overwrite_old_output=None):
         run['rundir'].mkdir(parents=True, exist_ok=True)
 
     backup_file = run['rundir'] / (run['runname'] + '_autogenerated_backup.ini')
-    with open(backup_file, 'w') as f:
+    with open(backup_file, 'w', encoding='utf-8') as f:
         p.write(f)
-- 
2.43.0


From a521d94feaba6f7db16858a03ca01c7fe3745c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:46 +0000
Subject: [PATCH 50/51] fix: switch on XT3D in the MODFLOW 6 input as intended,
 an empty value is written as an empty line

---
 hyvr/postprocess/output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/postprocess/output.py b/hyvr/postprocess/output.py
index 3645d60..0925347 100644
--- a/hyvr/postprocess/output.py
+++ b/hyvr/postprocess/output.py
@@ -313,7 +313,7 @@ def to_mf6(model, fname):
     """ Create Node Property Flow package object """
     if xt3d is True:
         npf_package = flopy.mf6.ModflowGwfnpf(gwf,
-                                              save_flows=True, icelltype=0, xt3doptions='',
+                                              save_flows=True, icelltype=0, xt3doptions=True,
                                               k=k_iso,                                  # within-bedding hydraulic conductivity
                                               k33=k_iso/anirat,                         # across-bedding hydraulic conductivity
                                               angle1=azim,                              # azimuth
-- 
2.43.0


From 99fbb5277fa66e63e66a83536328864c59d24498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:29 +0000
Subject: [PATCH 51/51] fix: cross sections show the logarithm if it is
 requested

---
 hyvr/postprocess/plotting.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hyvr/postprocess/plotting.py b/hyvr/postprocess/plotting.py
index ba1c552..07367eb 100644
--- a/hyvr/postprocess/plotting.py
+++ b/hyvr/postprocess/plotting.py
@@ -43,13 +43,14 @@ def cross_section_pcolor(model, field, y=None, x=None, log=False, xlim_y=None, y
         y = [y]
     if np.isscalar(x):
         x = [x]
+    data = np.log10(model.data[field]) if log else model.data[field]
 
     for yi in y:
         fig, ax = plt.subplots()
         y_index = int(np.round((yi-(model.grid.y0+model.grid.dy/2))/model.grid.dy))
         if 0 <= y_index and y_index < model.grid.ny:
             im = ax.pcolor(model.grid.X[:,y_index,:].T, model.grid.Z[:,y_index,:].T,
-                    model.data[field][:,y_index,:].T, cmap=cmap)
+                    data[:,y_index,:].T, cmap=cmap)
             ax.set_title(field + ', y = {:.2f}'.format(yi))
             ax.set_xlabel('x')
             ax.set_ylabel('z')
@@ -66,7 +67,7 @@ def cross_section_pcolor(model, field, y=None, x=None, log=False, xlim_y=None, y
         x_index = int(np.round((xi-(model.grid.x0+model.grid.dx/2))/model.grid.dx))
         if 0 <= x_index and x_index < model.grid.nx:
             im = ax.pcolor(model.grid.Y[x_index,:,:].T, model.grid.Z[x_index,:,:].T,
-                    model.data[field][x_index,:,:].T, cmap=cmap)
+                    data[x_index,:,:].T, cmap=cmap)
             ax.set_title(field + ', x = {:.2f}'.format(xi))
             ax.set_xlabel('y')
             ax.set_ylabel('z')
-- 
2.43.0

