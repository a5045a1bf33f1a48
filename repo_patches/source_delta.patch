From 8803c886ee3c57a95f7a0e0ce77efafc57e967c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:12 +0000
Subject: [PATCH 01/67] fix: quote the self-referential ContactSurface
 annotations so the module imports

---
 hyvr/geo/contact_surface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyvr/geo/contact_surface.py b/hyvr/geo/contact_surface.py
index 82637c5..6a8b4da 100644
--- a/hyvr/geo/contact_surface.py
+++ b/hyvr/geo/contact_surface.py
@@ -37,7 +37,7 @@ class ContactSurface:
 
 
 
-    def use_lower_surface_value(self, other_surface: ContactSurface ):
+    def use_lower_surface_value(self, other_surface: "ContactSurface"):
         other_surf = other_surface.surface
         for i in range(self.nx):
             for j in range(self.ny):
@@ -48,7 +48,7 @@ class ContactSurface:
 
 
 
-    def use_higher_surface_value(self, other_surface: ContactSurface ):
+    def use_higher_surface_value(self, other_surface: "ContactSurface"):
         other_surf = other_surface.surface
         for i in range(self.nx):
             for j in range(self.ny):
-- 
2.43.0


From 38689b38792322aa2db5efc725207f1bd227a7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:12 +0000
Subject: [PATCH 02/67] fix: replace np.float, which numpy no longer has, by
 float

---
 hyvr/assign_points.py      |  6 +++---
 hyvr/geo/ae_realization.py |  4 ++--
 hyvr/geo/model.py          |  8 ++++----
 hyvr/geo/sheet_ae.py       | 16 ++++++++--------
 4 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/hyvr/assign_points.py b/hyvr/assign_points.py
index d4b5669..dd3a92e 100644
--- a/hyvr/assign_points.py
+++ b/hyvr/assign_points.py
@@ -61,13 +61,13 @@ def assign_points(model):
     hat_array = -1*np.ones((nx, ny, nz), dtype=np.int32)
 
     # angles
-    azim_array = np.zeros((nx, ny, nz), dtype=np.float)
-    dip_array = np.zeros((nx, ny, nz), dtype=np.float)
+    azim_array = np.zeros((nx, ny, nz), dtype=float)
+    dip_array = np.zeros((nx, ny, nz), dtype=float)
 
 
     # container for passing facies, ae, ha, and hat, and azimuth and dip
     geo_ids = np.empty(4, dtype=np.int32)
-    angles = np.empty(2, dtype=np.float)
+    angles = np.empty(2, dtype=float)
 
     total_n = nx * ny
 
diff --git a/hyvr/geo/ae_realization.py b/hyvr/geo/ae_realization.py
index 4988634..3d92a27 100644
--- a/hyvr/geo/ae_realization.py
+++ b/hyvr/geo/ae_realization.py
@@ -117,8 +117,8 @@ class AERealization:
         self.object_zmins = np.array(self.object_zmin_list)
         self.object_zmaxs = np.array(self.object_zmax_list)
         # get the rest from the object list
-        self.object_azim = np.zeros(self.n_objects, dtype=np.float)
-        self.object_dip = np.zeros(self.n_objects, dtype=np.float)
+        self.object_azim = np.zeros(self.n_objects, dtype=float)
+        self.object_dip = np.zeros(self.n_objects, dtype=float)
         self.object_facies = np.zeros(self.n_objects, dtype=np.int32)
         self.object_num_ha = np.zeros(self.n_objects, dtype=np.int32)
         self.object_num_facies = np.zeros(self.n_objects, dtype=np.int32)
diff --git a/hyvr/geo/model.py b/hyvr/geo/model.py
index 8ffb396..05c11d6 100644
--- a/hyvr/geo/model.py
+++ b/hyvr/geo/model.py
@@ -175,13 +175,13 @@ class Model:
         # Initialise storage arrays:
         # hydraulic conductivity
         self.data['k_iso'] = np.zeros((self.grid.nx, self.grid.ny, self.grid.nz),
-                                      dtype=np.float)
+                                      dtype=float)
         # porosity
         self.data['poros' ]= np.zeros((self.grid.nx, self.grid.ny, self.grid.nz),
-                                      dtype=np.float)
+                                      dtype=float)
         # anisotropy ratio
         self.data['anirat' ]= np.ones((self.grid.nx, self.grid.ny, self.grid.nz),
-                                      dtype=np.float)
+                                      dtype=float)
 
         k_iso = self.data['k_iso']
         poros = self.data['poros']
@@ -289,7 +289,7 @@ class Model:
                 anirat[fac == hyi] = hydraulics['k_ratio'][hy_idx]
 
         # Assignment of anisotropy
-        self.data['ktensors'] = np.zeros((self.grid.nx, self.grid.ny, self.grid.nz, 3, 3), dtype=np.float)
+        self.data['ktensors'] = np.zeros((self.grid.nx, self.grid.ny, self.grid.nz, 3, 3), dtype=float)
         ho.set_anisotropic_ktensor(self.data['ktensors'], k_iso, azim*np.pi/180, dip*np.pi/180, anirat)
 
 
diff --git a/hyvr/geo/sheet_ae.py b/hyvr/geo/sheet_ae.py
index 1c15e83..edbe07c 100644
--- a/hyvr/geo/sheet_ae.py
+++ b/hyvr/geo/sheet_ae.py
@@ -14,20 +14,20 @@ class SheetAE(AERealization):
 
     def create_object_arrays(self):
 
-        self.object_shift = np.zeros(self.n_objects, dtype=np.float)
-        self.object_layer_dist = np.zeros(self.n_objects, dtype=np.float)
-        self.object_normvec_x = np.zeros(self.n_objects, dtype=np.float)
-        self.object_normvec_y = np.zeros(self.n_objects, dtype=np.float)
-        self.object_normvec_z = np.zeros(self.n_objects, dtype=np.float)
-        self.object_bottom_surface_zmean = np.zeros(self.n_objects, dtype=np.float)
+        self.object_shift = np.zeros(self.n_objects, dtype=float)
+        self.object_layer_dist = np.zeros(self.n_objects, dtype=float)
+        self.object_normvec_x = np.zeros(self.n_objects, dtype=float)
+        self.object_normvec_y = np.zeros(self.n_objects, dtype=float)
+        self.object_normvec_z = np.zeros(self.n_objects, dtype=float)
+        self.object_bottom_surface_zmean = np.zeros(self.n_objects, dtype=float)
         self.object_dipsets = np.zeros(self.n_objects, dtype=np.int32)
 
         if self.n_objects > 0:
             nx, ny = self.object_list[0].bottom_surface.surface.shape
         else:
             nx, ny = 0, 0
-        self.object_bottom_surface = np.zeros((self.n_objects, nx, ny), dtype=np.float)
-        self.object_top_surface = np.zeros((self.n_objects, nx, ny), dtype=np.float)
+        self.object_bottom_surface = np.zeros((self.n_objects, nx, ny), dtype=float)
+        self.object_top_surface = np.zeros((self.n_objects, nx, ny), dtype=float)
 
         for i, obj in enumerate(self.object_list):
             self.object_shift[i] = obj.shift
-- 
2.43.0


From 1879720d288eba40fc3b5e254c3aca7c5517b52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:12 +0000
Subject: [PATCH 03/67] fix: import the sin, cos and sqrt that hyvr.optimized
 uses

---
 hyvr/optimized.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hyvr/optimized.py b/hyvr/optimized.py
index b317e72..ac68241 100644
--- a/hyvr/optimized.py
+++ b/hyvr/optimized.py
@@ -4,6 +4,8 @@ This module contains optimized versions of routines that were once in sim or uti
 :Author: Samuel Scherrer
 """
 
+from math import sin, cos, sqrt
+
 import numpy as np
 import numpy.typing as npt
 
-- 
2.43.0


From ded099588f59d8416016a39af1f95edac3492774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:37 +0000
Subject: [PATCH 04/67] fix: make the trough and channel extension modules
 compile against the pure-Python base classes

---
 hyvr/geo/channel.pyx    |  1 -
 hyvr/geo/channel_ae.pxd | 32 ----------------------------
 hyvr/geo/channel_ae.pyx | 38 +++++++++++++++++-----------------
 hyvr/geo/trough.pyx     |  2 --
 hyvr/geo/trough_ae.pxd  | 29 --------------------------
 hyvr/geo/trough_ae.pyx  | 46 ++++++++++++++++++++---------------------
 6 files changed, 42 insertions(+), 106 deletions(-)
 delete mode 100644 hyvr/geo/channel_ae.pxd
 delete mode 100644 hyvr/geo/trough_ae.pxd

diff --git a/hyvr/geo/channel.pyx b/hyvr/geo/channel.pyx
index aaf2fc2..421575f 100644
--- a/hyvr/geo/channel.pyx
+++ b/hyvr/geo/channel.pyx
@@ -1,7 +1,6 @@
 import numpy as np
 cimport numpy as np
 cimport cython
-from hyvr.geo.grid cimport Grid
 from libc.math cimport sqrt, sin, cos, atan2
 import hyvr.utils as hu
 
diff --git a/hyvr/geo/channel_ae.pxd b/hyvr/geo/channel_ae.pxd
deleted file mode 100644
index 8b74e03..0000000
--- a/hyvr/geo/channel_ae.pxd
+++ /dev/null
@@ -1,32 +0,0 @@
-
-cimport numpy as np
-from hyvr.geo.contact_surface cimport ContactSurface
-from hyvr.geo.grid cimport Grid
-from hyvr.geo.ae_realization cimport AERealization
-
-
-cdef class ChannelAE(AERealization):
-
-    cdef public:
-        # These are arrays of object attributes for better access from cython
-        np.float_t [:,:] object_x_center, object_y_center
-        np.float_t [:,:] object_vx, object_vy
-        np.float_t [:] object_a, object_width, object_depth, object_min_dx_dy
-        np.int32_t [:] object_len_centerline
-        np.float_t [:] object_ztop
-        np.float_t [:] object_sin_dip, object_cos_dip
-        np.float_t [:] object_shift, object_layer_dist
-        np.float_t [:] object_lag_height
-        np.int32_t [:] object_lag_facies
-        np.int32_t [:] object_dipsets
-        np.int32_t [:,:,:] object_dont_check
-
-
-
-    cpdef create_object_arrays(self)
-    cpdef maybe_assign_points_to_object(self, int oi,
-                                        np.int32_t [:] geo_ids,
-                                        np.float_t [:] angles,
-                                        np.float_t x, np.float_t y, np.float_t z,
-                                        int x_idx, int y_idx,
-                                        Grid grid)
\ No newline at end of file
diff --git a/hyvr/geo/channel_ae.pyx b/hyvr/geo/channel_ae.pyx
index 43edc15..77867ad 100644
--- a/hyvr/geo/channel_ae.pyx
+++ b/hyvr/geo/channel_ae.pyx
@@ -6,27 +6,27 @@ from hyvr.geo.channel import Channel
 cimport cython
 cimport numpy as np
 from libc.math cimport sqrt, atan2
-from hyvr.geo.ae_realization cimport AERealization
+from hyvr.geo.ae_realization import AERealization
 
 
-cdef class ChannelAE(AERealization):
+class ChannelAE(AERealization):
 
     @cython.boundscheck(False)
     @cython.wraparound(False)
-    cpdef create_object_arrays(self):
+    def create_object_arrays(self):
         # This is super ugly :(
         cdef int i, nx, ny, j, k, max_len_centerline
-        self.object_a = np.zeros(self.n_objects, dtype=np.float)
-        self.object_width = np.zeros(self.n_objects, dtype=np.float)
-        self.object_depth = np.zeros(self.n_objects, dtype=np.float)
-        self.object_min_dx_dy = np.zeros(self.n_objects, dtype=np.float)
+        self.object_a = np.zeros(self.n_objects, dtype=float)
+        self.object_width = np.zeros(self.n_objects, dtype=float)
+        self.object_depth = np.zeros(self.n_objects, dtype=float)
+        self.object_min_dx_dy = np.zeros(self.n_objects, dtype=float)
         self.object_len_centerline = np.zeros(self.n_objects, dtype=np.int32)
-        self.object_ztop = np.zeros(self.n_objects, dtype=np.float)
-        self.object_sin_dip = np.zeros(self.n_objects, dtype=np.float)
-        self.object_cos_dip = np.zeros(self.n_objects, dtype=np.float)
-        self.object_shift = np.zeros(self.n_objects, dtype=np.float)
-        self.object_layer_dist = np.zeros(self.n_objects, dtype=np.float)
-        self.object_lag_height = np.zeros(self.n_objects, dtype=np.float)
+        self.object_ztop = np.zeros(self.n_objects, dtype=float)
+        self.object_sin_dip = np.zeros(self.n_objects, dtype=float)
+        self.object_cos_dip = np.zeros(self.n_objects, dtype=float)
+        self.object_shift = np.zeros(self.n_objects, dtype=float)
+        self.object_layer_dist = np.zeros(self.n_objects, dtype=float)
+        self.object_lag_height = np.zeros(self.n_objects, dtype=float)
         self.object_lag_facies = np.zeros(self.n_objects, dtype=np.int32)
         self.object_dipsets = np.zeros(self.n_objects, dtype=np.int32)
 
@@ -59,10 +59,10 @@ cdef class ChannelAE(AERealization):
             max_len_centerline = np.max(self.object_len_centerline)
         else:
             max_len_centerline = 0
-        self.object_x_center = np.zeros((self.n_objects, max_len_centerline), dtype=np.float)
-        self.object_y_center = np.zeros((self.n_objects, max_len_centerline), dtype=np.float)
-        self.object_vx = np.zeros((self.n_objects, max_len_centerline), dtype=np.float)
-        self.object_vy = np.zeros((self.n_objects, max_len_centerline), dtype=np.float)
+        self.object_x_center = np.zeros((self.n_objects, max_len_centerline), dtype=float)
+        self.object_y_center = np.zeros((self.n_objects, max_len_centerline), dtype=float)
+        self.object_vx = np.zeros((self.n_objects, max_len_centerline), dtype=float)
+        self.object_vy = np.zeros((self.n_objects, max_len_centerline), dtype=float)
 
         for i, obj in enumerate(self.object_list):
             for j in range(self.object_len_centerline[i]):
@@ -168,12 +168,12 @@ cdef class ChannelAE(AERealization):
     @cython.wraparound(False)
     @cython.nonecheck(False)
     @cython.cdivision(True)
-    cpdef maybe_assign_points_to_object(self, int oi,
+    def maybe_assign_points_to_object(self, int oi,
                                         np.int32_t [:] geo_ids,
                                         np.float_t [:] angles,
                                         np.float_t x, np.float_t y, np.float_t z,
                                         int x_idx, int y_idx,
-                                        Grid grid):
+                                        grid):
         """
         This function checks whether the current grid cell with given
         coordinates is inside the trough and assigns facies, azimuth and dip by
diff --git a/hyvr/geo/trough.pyx b/hyvr/geo/trough.pyx
index 5cdf582..6b8042c 100644
--- a/hyvr/geo/trough.pyx
+++ b/hyvr/geo/trough.pyx
@@ -1,9 +1,7 @@
 import numpy as np
-cimport hyvr.optimized as ho
 import hyvr.utils as hu
 from libc.math cimport sin, cos, ceil, acos, sqrt
 cimport numpy as np
-from hyvr.geo.grid cimport Grid
 cimport cython
 
 cdef class Trough:
diff --git a/hyvr/geo/trough_ae.pxd b/hyvr/geo/trough_ae.pxd
deleted file mode 100644
index ab3d91d..0000000
--- a/hyvr/geo/trough_ae.pxd
+++ /dev/null
@@ -1,29 +0,0 @@
-
-cimport numpy as np
-from hyvr.geo.contact_surface cimport ContactSurface
-from hyvr.geo.grid cimport Grid
-from hyvr.geo.ae_realization cimport AERealization
-
-cdef class TroughAE(AERealization):
-
-    cdef public:
-        # These are arrays of object attributes for better access from cython
-        np.float_t [:] object_x, object_y, object_z
-        np.float_t [:] object_a, object_b, object_c
-        np.float_t [:] object_max_ab
-        np.float_t [:] object_alpha, object_sinalpha, object_cosalpha
-        np.float_t [:] object_lag, object_shift
-        np.int32_t [:] object_structure
-        np.int32_t [:] object_lag_facies
-        np.float_t [:] object_layer_dist
-        np.float_t [:] object_cosdip
-        np.float_t [:] object_normvec_x, object_normvec_y, object_normvec_z
-
-
-    cpdef create_object_arrays(self)
-    cpdef maybe_assign_points_to_object(self, int oi,
-                                        np.int32_t [:] geo_ids,
-                                        np.float_t [:] angles,
-                                        np.float_t x, np.float_t y, np.float_t z,
-                                        int x_idx, int y_idx,
-                                        Grid grid)
\ No newline at end of file
diff --git a/hyvr/geo/trough_ae.pyx b/hyvr/geo/trough_ae.pyx
index 5f05c34..6dc077b 100644
--- a/hyvr/geo/trough_ae.pyx
+++ b/hyvr/geo/trough_ae.pyx
@@ -6,34 +6,34 @@ from hyvr.geo.trough import Trough
 cimport cython
 cimport numpy as np
 from libc.math cimport sqrt, ceil, acos, pi, fabs, atan
-from hyvr.geo.ae_realization cimport AERealization
-cimport hyvr.optimized as ho
+from hyvr.geo.ae_realization import AERealization
+import hyvr.optimized as ho
 
 
-cdef class TroughAE(AERealization):
+class TroughAE(AERealization):
 
     @cython.boundscheck(False)
     @cython.wraparound(False)
-    cpdef create_object_arrays(self):
+    def create_object_arrays(self):
         # This is super ugly :(
         cdef int i
-        self.object_x = np.zeros(self.n_objects, dtype=np.float)
-        self.object_y = np.zeros(self.n_objects, dtype=np.float)
-        self.object_z = np.zeros(self.n_objects, dtype=np.float)
-        self.object_a = np.zeros(self.n_objects, dtype=np.float)
-        self.object_b = np.zeros(self.n_objects, dtype=np.float)
-        self.object_c = np.zeros(self.n_objects, dtype=np.float)
-        self.object_max_ab = np.zeros(self.n_objects, dtype=np.float)
-        self.object_alpha = np.zeros(self.n_objects, dtype=np.float)
-        self.object_sinalpha = np.zeros(self.n_objects, dtype=np.float)
-        self.object_cosalpha = np.zeros(self.n_objects, dtype=np.float)
-        self.object_lag = np.zeros(self.n_objects, dtype=np.float)
-        self.object_shift = np.zeros(self.n_objects, dtype=np.float)
-        self.object_cosdip = np.zeros(self.n_objects, dtype=np.float)
-        self.object_layer_dist = np.zeros(self.n_objects, dtype=np.float)
-        self.object_normvec_x = np.zeros(self.n_objects, dtype=np.float)
-        self.object_normvec_y = np.zeros(self.n_objects, dtype=np.float)
-        self.object_normvec_z = np.zeros(self.n_objects, dtype=np.float)
+        self.object_x = np.zeros(self.n_objects, dtype=float)
+        self.object_y = np.zeros(self.n_objects, dtype=float)
+        self.object_z = np.zeros(self.n_objects, dtype=float)
+        self.object_a = np.zeros(self.n_objects, dtype=float)
+        self.object_b = np.zeros(self.n_objects, dtype=float)
+        self.object_c = np.zeros(self.n_objects, dtype=float)
+        self.object_max_ab = np.zeros(self.n_objects, dtype=float)
+        self.object_alpha = np.zeros(self.n_objects, dtype=float)
+        self.object_sinalpha = np.zeros(self.n_objects, dtype=float)
+        self.object_cosalpha = np.zeros(self.n_objects, dtype=float)
+        self.object_lag = np.zeros(self.n_objects, dtype=float)
+        self.object_shift = np.zeros(self.n_objects, dtype=float)
+        self.object_cosdip = np.zeros(self.n_objects, dtype=float)
+        self.object_layer_dist = np.zeros(self.n_objects, dtype=float)
+        self.object_normvec_x = np.zeros(self.n_objects, dtype=float)
+        self.object_normvec_y = np.zeros(self.n_objects, dtype=float)
+        self.object_normvec_z = np.zeros(self.n_objects, dtype=float)
         self.object_lag_facies = np.zeros(self.n_objects, dtype=np.int32)
         self.object_structure = np.zeros(self.n_objects, dtype=np.int32)
 
@@ -88,12 +88,12 @@ cdef class TroughAE(AERealization):
     @cython.wraparound(False)
     @cython.nonecheck(False)
     @cython.cdivision(True)
-    cpdef maybe_assign_points_to_object(self, int oi,
+    def maybe_assign_points_to_object(self, int oi,
                                         np.int32_t [:] geo_ids,
                                         np.float_t [:] angles,
                                         np.float_t x, np.float_t y, np.float_t z,
                                         int x_idx, int y_idx,
-                                        Grid grid):
+                                        grid):
         """
         This function checks whether the current grid cell with given
         coordinates is inside the trough and assigns facies, azimuth and dip by
-- 
2.43.0


From 530d061592481cc7c920c785a75b8748a263d613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:37 +0000
Subject: [PATCH 05/67] fix: import hyvr without needing the compiled trough
 and channel modules

---
 hyvr/geo/ae_types.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hyvr/geo/ae_types.py b/hyvr/geo/ae_types.py
index f001cd5..226a123 100644
--- a/hyvr/geo/ae_types.py
+++ b/hyvr/geo/ae_types.py
@@ -4,8 +4,6 @@ This module contains the architectural element types.
 
 from hyvr.geo.ae_realization import AERealization
 from hyvr.geo.sheet_ae import SheetAE
-from hyvr.geo.channel_ae import ChannelAE
-from hyvr.geo.trough_ae import TroughAE
 
 class AEType:
     """
@@ -58,9 +56,13 @@ class AEType:
             The top surface of the AE.
         model : Model object
         """
+        # troughs and channels are compiled extension modules, so they are only
+        # imported if they are really necessary
         if self.geometry == 'trough':
+            from hyvr.geo.trough_ae import TroughAE
             return TroughAE(bottom_surface, top_surface, self.name, self.params, stratum, grid)
         elif self.geometry == 'channel':
+            from hyvr.geo.channel_ae import ChannelAE
             return ChannelAE(bottom_surface, top_surface, self.name, self.params, stratum, grid)
         elif self.geometry == 'sheet':
             return SheetAE(bottom_surface, top_surface, self.name, self.params, stratum, grid)
-- 
2.43.0


From 05cd76e46f84743c9cafc959946bcb413f0e2155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:37 +0000
Subject: [PATCH 06/67] fix: give sheets defaults for the attributes their
 internal structure does not set

---
 hyvr/geo/sheet.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/hyvr/geo/sheet.py b/hyvr/geo/sheet.py
index eeed2e8..6f47860 100644
--- a/hyvr/geo/sheet.py
+++ b/hyvr/geo/sheet.py
@@ -34,6 +34,17 @@ class Sheet:
         self.top_surface = top_surface
         self.zmin = self.bottom_surface.zmin
         self.zmax = self.top_surface.zmax
+
+        # not every internal structure sets all of these
+        self.num_ha = 0
+        self.num_facies = 0
+        self.facies = 0
+        self.layer_dist = 0.
+        self.shift = 0.
+        self.normvec_x = 0.
+        self.normvec_y = 0.
+        self.normvec_z = 0.
+
         self.dipsets = type_params['structure'] == 'dip'
         if self.dipsets:
             # the dipsets are layers of planes with distance dipset_dist such that
-- 
2.43.0


From 679b067813a8d459257b771624afa0a94356243b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:11 +0000
Subject: [PATCH 07/67] fix: number hydrofacies assemblages in the arrays the
 cells are assigned from

---
 hyvr/geo/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyvr/geo/model.py b/hyvr/geo/model.py
index 05c11d6..cd9ddbe 100644
--- a/hyvr/geo/model.py
+++ b/hyvr/geo/model.py
@@ -144,8 +144,9 @@ class Model:
             for ae in stratum.aes:
                 ae.num = num_ae
                 num_ae += 1
-                for obj in ae.object_list:
+                for oi, obj in enumerate(ae.object_list):
                     obj.num_ha = num_ha
+                    ae.object_num_ha[oi] = num_ha
                     num_ha += 1
 
 
-- 
2.43.0


From 1b3bdc16cc28df108f0be367030533aef84ca879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:11 +0000
Subject: [PATCH 08/67] fix: let the overwrite argument (and --overwrite) take
 precedence over the ini-file

---
 hyvr/input/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index 532af78..672375d 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -498,7 +498,7 @@ def set_up_directories(run, inifile, overwrite_old_output=None):
     if overwrite_old_output is None:
         overwrite_old_output = run['overwrite_old_output']
     if run['rundir'].exists():
-        if run['overwrite_old_output'] is True:
+        if overwrite_old_output is True:
             # If it exists, we just delete everything in it
             for f in os.listdir(run['rundir']):
                 path = os.path.join(run['rundir'], f)
-- 
2.43.0


From 47fcdabc1c452b5d9ebb64792754a5ae1a952c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:11 +0000
Subject: [PATCH 09/67] fix: accept a model directory given in the ini-file or
 at the prompt

---
 hyvr/input/parameters.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index 672375d..be91e28 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -149,10 +149,11 @@ def parameters(inifile):
             directory = input(
                 'Please input the model directory save path, or press <enter> to'
                 'save in default directory:\n')
-            if len(run['modeldir']) == 0:
-                run['modeldir'] = inipath
+            if len(directory) == 0:
+                run['modeldir'] = ini_path
             else:
                 run['modeldir'] = pathlib.Path(directory).resolve()
+        run['modeldir'] = pathlib.Path(run['modeldir'])
         run['rundir'] = run['modeldir'] / run['runname']
 
     return run, model, strata, hydraulics, flowtrans, elements
-- 
2.43.0


From 5fcd42c1a499cd95154c838a0bc6c55a49ce532b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:11 +0000
Subject: [PATCH 10/67] fix: generate homogeneous hydraulics from the
 hydrofacies list

---
 hyvr/geo/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/geo/model.py b/hyvr/geo/model.py
index cd9ddbe..4ff8f69 100644
--- a/hyvr/geo/model.py
+++ b/hyvr/geo/model.py
@@ -283,7 +283,7 @@ class Model:
 
         else:
             # Homogeneous case
-            for hy_idx, hyi in enumerate(hydraulics['hydro']):
+            for hy_idx, hyi in enumerate(hydraulics['hydrofacies']):
                 hyi = hy_idx
                 k_iso[fac == hyi] = hydraulics['k_h'][hy_idx]
                 poros[fac == hyi] = hydraulics['n'][hy_idx]
-- 
2.43.0


From da06df96201993a8a7f51caaa6fc36e508df4631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:11 +0000
Subject: [PATCH 11/67] fix: put the top of the model at z0 + lz

---
 hyvr/geo/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/geo/model.py b/hyvr/geo/model.py
index 4ff8f69..787fe28 100644
--- a/hyvr/geo/model.py
+++ b/hyvr/geo/model.py
@@ -106,7 +106,7 @@ class Model:
             'strata',
         ]
 
-        top_surface = ContactSurface(self.grid, mode='flat', z=self.grid.lz)
+        top_surface = ContactSurface(self.grid, mode='flat', z=self.grid.zmax)
         for si in range(self.n_strata):
             # create top surface
             if si == self.n_strata - 1:
-- 
2.43.0


From eeb5edabb009edf1ea694fbab9e425ba9c5e93a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:11 +0000
Subject: [PATCH 12/67] fix: require bulbset_dist for bulb_sets instead of for
 bulb

---
 hyvr/input/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index be91e28..a959e57 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -281,7 +281,7 @@ def parse_inifile(p):
         if elements[section]['structure'] == 'dip' or elements[section]['structure'] == 'random':
             assert_exists('dipset_dist', dictionary, section)
         # if structure is 'bulb_sets', require 'bulbset_dist'
-        if elements[section]['structure'] == 'bulb' or elements[section]['structure'] == 'random':
+        if elements[section]['structure'] == 'bulb_sets' or elements[section]['structure'] == 'random':
             assert_exists('bulbset_dist', dictionary, section)
 
         # lag surface facies
-- 
2.43.0


From 5b15bfd4a56936835f01f8e8e6bebcec6a6ae3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:11 +0000
Subject: [PATCH 13/67] fix: keep the bottom of a sheet above the bottom of its
 architectural element

---
 hyvr/geo/sheet_ae.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/geo/sheet_ae.py b/hyvr/geo/sheet_ae.py
index edbe07c..d25d38f 100644
--- a/hyvr/geo/sheet_ae.py
+++ b/hyvr/geo/sheet_ae.py
@@ -87,7 +87,7 @@ class SheetAE(AERealization):
                 # close to the bottom it might also be possible that the AE
                 # bottom is higher than the current bottom, so we have to use
                 # the higher value
-                top_surface.use_higher_surface_value(self.bottom_surface)
+                bottom_surface.use_higher_surface_value(self.bottom_surface)
 
             else:
                 last_sheet = True
-- 
2.43.0


From b224dd83d3c1596cd82a2d239ed98a5451b25369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:49 +0000
Subject: [PATCH 14/67] fix: generate background heterogeneity in background
 cells instead of in the first object

---
 hyvr/geo/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyvr/geo/model.py b/hyvr/geo/model.py
index 787fe28..b713f43 100644
--- a/hyvr/geo/model.py
+++ b/hyvr/geo/model.py
@@ -228,9 +228,9 @@ class Model:
                 # for si, aei in enumerate(ae_lu):
                 for stratum in self.strata:
                     for ae in stratum.aes:
-                        m0 = ha_arr == 0
+                        m0 = ha_arr == -1
                         ms = ae_arr == ae.num
-                        ae_mask = m0 & ms     # Get material that equals zero within in architectural element
+                        ae_mask = m0 & ms     # Get background material (not in any object) within the architectural element
                         if np.all(ae_mask == False):
                             continue
 
-- 
2.43.0


From 410993a0a814d6bc4347b84b1747561906ad12cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:49 +0000
Subject: [PATCH 15/67] fix: store the conductivity and porosity fields after
 applying x-trends

---
 hyvr/geo/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyvr/geo/model.py b/hyvr/geo/model.py
index b713f43..2cb000f 100644
--- a/hyvr/geo/model.py
+++ b/hyvr/geo/model.py
@@ -272,14 +272,14 @@ class Model:
                     k_iso *= zf_vec
                 if hydraulics['k_xtrend'] is not None:
                     xf_vec = np.linspace(*hydraulics['k_xtrend'], self.grid.nx)
-                    k_iso = np.transpose(k_iso.transpose() * xf_vec)
+                    k_iso *= xf_vec[:, np.newaxis, np.newaxis]
 
                 if hydraulics['n_ztrend'] is not None:
                     zf_vec = np.linspace(*hydraulics['n_ztrend'], self.grid.nz)  # Z factor at each elevation
                     poros *= zf_vec
                 if hydraulics['n_xtrend'] is not None:
                    xf_vec = np.linspace(*hydraulics['n_xtrend'], self.grid.nx)
-                   poros = np.transpose(poros.transpose() * xf_vec)
+                   poros *= xf_vec[:, np.newaxis, np.newaxis]
 
         else:
             # Homogeneous case
-- 
2.43.0


From dda769d41704a27e9703c332fee18cc9f87f6e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:49 +0000
Subject: [PATCH 16/67] fix: apply the trends of an architectural element to
 its own cells only, and its porosity trends too

---
 hyvr/geo/model.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/hyvr/geo/model.py b/hyvr/geo/model.py
index 2cb000f..e2da97f 100644
--- a/hyvr/geo/model.py
+++ b/hyvr/geo/model.py
@@ -257,14 +257,23 @@ class Model:
                         # Assign background anisotropy ratio
                         anirat[ae_mask] = hydraulics['k_ratio'][ae_bg_facies]
 
-                        # Assign architectural element trends
+                """ Assign architectural element trends """
+                for stratum in self.strata:
+                    for ae in stratum.aes:
+                        ms = ae_arr == ae.num
                         if ae.type_params['k_ztrend'] is not None:
                             # Vertical trend
                             zf_vec = np.linspace(*ae.type_params['k_ztrend'], self.grid.nz)  # Z factor at each elevation
-                            k_iso *= zf_vec
+                            k_iso[ms] *= np.broadcast_to(zf_vec, ms.shape)[ms]
                         if ae.type_params['k_xtrend'] is not None:
                             xf_vec = np.linspace(*ae.type_params['k_xtrend'], self.grid.nx)
-                            k_iso = np.transpose(k_iso.transpose() * xf_vec)
+                            k_iso[ms] *= np.broadcast_to(xf_vec[:, np.newaxis, np.newaxis], ms.shape)[ms]
+                        if ae.type_params['n_ztrend'] is not None:
+                            zf_vec = np.linspace(*ae.type_params['n_ztrend'], self.grid.nz)
+                            poros[ms] *= np.broadcast_to(zf_vec, ms.shape)[ms]
+                        if ae.type_params['n_xtrend'] is not None:
+                            xf_vec = np.linspace(*ae.type_params['n_xtrend'], self.grid.nx)
+                            poros[ms] *= np.broadcast_to(xf_vec[:, np.newaxis, np.newaxis], ms.shape)[ms]
 
                 """ Assign trends to hydraulic parameters globally """
                 if hydraulics['k_ztrend'] is not None:
-- 
2.43.0


From be7c2f43d74ee564765b64e48ab9e7c8d292ef76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:49 +0000
Subject: [PATCH 17/67] fix: only remove the mean from the power spectrum of
 random fields, not a whole plane

---
 hyvr/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/utils.py b/hyvr/utils.py
index c192bf7..d093707 100644
--- a/hyvr/utils.py
+++ b/hyvr/utils.py
@@ -512,7 +512,7 @@ def specsim(grid, var, corl, selection_mask=None, two_dim=False, covmod='gaussia
     # Power spectrum of variable
     syy = np.fft.fftn(np.fft.fftshift(ryy)) / ntot
     syy = np.abs(syy)       # Remove imaginary artifacts
-    syy[0] = 0
+    syy.flat[0] = 0
 
     real = np.random.randn(*syy.shape)
     imag = np.random.randn(*syy.shape)
-- 
2.43.0


From 1d61433d8888e1dd39e8d0ed093afc363fd98979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:49 +0000
Subject: [PATCH 18/67] fix: provide enough facies for all dipping layers of a
 sheet

---
 hyvr/geo/sheet.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hyvr/geo/sheet.py b/hyvr/geo/sheet.py
index 6f47860..2d6714e 100644
--- a/hyvr/geo/sheet.py
+++ b/hyvr/geo/sheet.py
@@ -84,9 +84,10 @@ class Sheet:
             self.shift += np.random.rand() * self.layer_dist
 
 
-            # The maximum amount of necessary layers is max(lx, ly, lz)/layer_dist
+            # The zero-plane is in the center of the facies array, and no point of
+            # the domain is farther away from it than the domain diagonal
             # 10 is added just to be sure
-            self.num_facies = int(np.ceil((max(grid.ly, grid.ly, grid.lz) + self.shift)/self.layer_dist)) + 10
+            self.num_facies = 2*int(np.ceil(np.sqrt(grid.lx**2 + grid.ly**2 + grid.lz**2)/self.layer_dist)) + 10
             self.facies_array = hu.get_alternating_facies(self.num_facies, type_params)
         else:
             # massive internal structure
-- 
2.43.0


From a029bd38ca156206ef766c1545070b99b2f9a44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:49 +0000
Subject: [PATCH 19/67] fix: give the dipping layer at the zero-plane the same
 thickness as all others

---
 hyvr/geo/sheet_ae.py   | 2 +-
 hyvr/geo/trough_ae.pyx | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyvr/geo/sheet_ae.py b/hyvr/geo/sheet_ae.py
index d25d38f..06be906 100644
--- a/hyvr/geo/sheet_ae.py
+++ b/hyvr/geo/sheet_ae.py
@@ -152,7 +152,7 @@ class SheetAE(AERealization):
         geo_ids[2] = self.object_num_ha[oi]
         if self.object_dipsets[oi]:
             d = self.object_normvec_x[oi]*x + self.object_normvec_y[oi]*y + self.object_normvec_z[oi]*z - self.object_shift[oi]
-            n = int(d/self.object_layer_dist[oi]) + self.object_num_facies[oi]//2
+            n = int(np.floor(d/self.object_layer_dist[oi])) + self.object_num_facies[oi]//2
             geo_ids[0] = self.object_facies_array[oi,n]
             return
         else:
diff --git a/hyvr/geo/trough_ae.pyx b/hyvr/geo/trough_ae.pyx
index 6dc077b..d5a0f9c 100644
--- a/hyvr/geo/trough_ae.pyx
+++ b/hyvr/geo/trough_ae.pyx
@@ -5,7 +5,7 @@ from hyvr.geo.trough import Trough
 
 cimport cython
 cimport numpy as np
-from libc.math cimport sqrt, ceil, acos, pi, fabs, atan
+from libc.math cimport sqrt, ceil, floor, acos, pi, fabs, atan
 from hyvr.geo.ae_realization import AERealization
 import hyvr.optimized as ho
 
@@ -192,7 +192,7 @@ class TroughAE(AERealization):
                          dy*self.object_normvec_y[oi] +\
                          dz*self.object_normvec_z[oi] + self.object_shift[oi]
             # get index in facies vector, where n = len(facies)//2 at d=0
-            n = int(plane_dist/self.object_layer_dist[oi]) + self.object_num_facies[oi]//2
+            n = int(floor(plane_dist/self.object_layer_dist[oi])) + self.object_num_facies[oi]//2
             geo_ids[0] = self.object_facies_array[oi,n]
             angles[0] = self.object_azim[oi]
             angles[1] = self.object_dip[oi]
-- 
2.43.0


From 2af2d6a91bc646484a3985db551a51c4d7354c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:49 +0000
Subject: [PATCH 20/67] fix: order manually placed troughs from top to bottom

---
 hyvr/geo/trough_ae.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyvr/geo/trough_ae.pyx b/hyvr/geo/trough_ae.pyx
index d5a0f9c..c0e1796 100644
--- a/hyvr/geo/trough_ae.pyx
+++ b/hyvr/geo/trough_ae.pyx
@@ -70,7 +70,8 @@ class TroughAE(AERealization):
                 self.bottom_surface, self.top_surface, self.type_params, grid
             )
         else:
-            te_xyz = self.type_params['te_xyz']
+            # objects have to be ordered from top to bottom
+            te_xyz = sorted(self.type_params['te_xyz'], key=lambda xyz: -xyz[2])
 
         # Generate troughs
         for xc, yc, zc in te_xyz:
-- 
2.43.0


From 2aa03b228288a9b61083db8c675fb02b6a63f464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:49 +0000
Subject: [PATCH 21/67] fix: rotate the normal vector of bulbs with the trough

---
 hyvr/geo/trough_ae.pyx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyvr/geo/trough_ae.pyx b/hyvr/geo/trough_ae.pyx
index c0e1796..9307a4f 100644
--- a/hyvr/geo/trough_ae.pyx
+++ b/hyvr/geo/trough_ae.pyx
@@ -209,8 +209,8 @@ class TroughAE(AERealization):
             #
             # The gradient is (up to a scalar)
             #
-            #             /  nx*cos/a + ny*sin/b  \
-            # grad f(x) = | -nx*sin/a + ny*cos/b  |
+            #             /  nx*cos/a - ny*sin/b  \
+            # grad f(x) = |  nx*sin/a + ny*cos/b  |
             #             \          nz/c         /
             #
             # where nx, ny, nz are the normalized distances.
@@ -229,8 +229,8 @@ class TroughAE(AERealization):
             len_normvec = sqrt(aaa**2 + bbb**2 + ccc**2)
             if len_normvec != 0:
                 normvec_x = (aaa*self.object_cosalpha[oi]
-                             + bbb*self.object_sinalpha[oi])/len_normvec
-                normvec_y = (-aaa*self.object_sinalpha[oi]
+                             - bbb*self.object_sinalpha[oi])/len_normvec
+                normvec_y = (aaa*self.object_sinalpha[oi]
                              + bbb*self.object_cosalpha[oi])/len_normvec
                 normvec_z = ccc/len_normvec
                 len_normvec_xy = sqrt(normvec_x**2 + normvec_y**2)
-- 
2.43.0


From 6e070584e2ac856d3bcbc392700a4f84117ca039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:49 +0000
Subject: [PATCH 22/67] fix: interpolate the size trend of channels

---
 hyvr/geo/channel_ae.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/geo/channel_ae.pyx b/hyvr/geo/channel_ae.pyx
index 77867ad..5d09c07 100644
--- a/hyvr/geo/channel_ae.pyx
+++ b/hyvr/geo/channel_ae.pyx
@@ -112,7 +112,7 @@ class ChannelAE(AERealization):
         dz = self.type_params['agg']
         if self.type_params['size_ztrend'] is not None:
             z = 0.5*(self.top_surface.zmean + self.bottom_surface.zmean)
-            zfactor = np.interp(z, [grid.z0, grid.zmax], *self.type_params['size_ztrend'])
+            zfactor = np.interp(z, [grid.z0, grid.zmax], self.type_params['size_ztrend'])
         else:
             zfactor = 1
         depth = self.type_params['depth'] * zfactor
-- 
2.43.0


From 047c1b610e0df0101b71142b8145727e6077fb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:49 +0000
Subject: [PATCH 23/67] fix: start channels relative to the domain center for
 any grid origin

---
 hyvr/geo/channel_ae.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyvr/geo/channel_ae.pyx b/hyvr/geo/channel_ae.pyx
index 5d09c07..0de47f5 100644
--- a/hyvr/geo/channel_ae.pyx
+++ b/hyvr/geo/channel_ae.pyx
@@ -133,8 +133,8 @@ class ChannelAE(AERealization):
 
             for i in range(n_channels):
                 # get start of channel
-                ystart_grid = (grid.y0 + grid.ly)/2 - (domain_length+width)/2 * np.sin(flow_angle) + ystart[i] * np.cos(flow_angle)
-                xstart_grid = (grid.x0 + grid.lx)/2 - (domain_length+width)/2 * np.cos(flow_angle) - ystart[i] * np.sin(flow_angle)
+                ystart_grid = grid.y0 + grid.ly/2 - (domain_length+width)/2 * np.sin(flow_angle) + ystart[i] * np.cos(flow_angle)
+                xstart_grid = grid.x0 + grid.lx/2 - (domain_length+width)/2 * np.cos(flow_angle) - ystart[i] * np.sin(flow_angle)
                 # generate centerline
                 outputs = ferguson_curve(grid,
                                          self.type_params['h'],
-- 
2.43.0


From 90f8aea0c91fe9d66ac7b0d78b5d5725bafb1080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:49 +0000
Subject: [PATCH 24/67] fix: convert the height of the skipped circle around a
 cell to grid cells

---
 hyvr/geo/channel_ae.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/geo/channel_ae.pyx b/hyvr/geo/channel_ae.pyx
index 0de47f5..545b771 100644
--- a/hyvr/geo/channel_ae.pyx
+++ b/hyvr/geo/channel_ae.pyx
@@ -268,7 +268,7 @@ class ChannelAE(AERealization):
                     #
                     #     y(x) = sqrt(radius**2 - x**2)
                     #
-                    ny = int(sqrt(radius**2 - (i*grid.dx)**2))
+                    ny = int(sqrt(radius**2 - (i*grid.dx)**2)/grid.dy)
                     for j in range(ny):
                         if y_idx-j >= 0 and y_idx+j < grid.ny:
                             self.object_dont_check[oi,x_idx+i, y_idx+j] = 1
-- 
2.43.0


From 571668ad815b0fb52f3b36f56039e6725959759b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:49 +0000
Subject: [PATCH 25/67] fix: never look up dipping channel layers before the
 start of the facies list

---
 hyvr/geo/channel.pyx    | 2 +-
 hyvr/geo/channel_ae.pyx | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/hyvr/geo/channel.pyx b/hyvr/geo/channel.pyx
index 421575f..fcd6e3c 100644
--- a/hyvr/geo/channel.pyx
+++ b/hyvr/geo/channel.pyx
@@ -96,7 +96,7 @@ cdef class Channel:
                                             +(self.y_center[i] - self.y_center[i-1])**2
                 )
             self.num_facies = int(
-                np.ceil(dist_along_curve*self.sin_dip/self.layer_dist + self.shift)
+                np.ceil((dist_along_curve*self.sin_dip + self.shift)/self.layer_dist)
                 + np.ceil(self.depth/self.layer_dist)
             )
             self.num_facies += 10  # just to be sure
diff --git a/hyvr/geo/channel_ae.pyx b/hyvr/geo/channel_ae.pyx
index 545b771..b3e27c7 100644
--- a/hyvr/geo/channel_ae.pyx
+++ b/hyvr/geo/channel_ae.pyx
@@ -299,7 +299,8 @@ class ChannelAE(AERealization):
                 # enough, it won't really matter.
                 # To correct for the distance in z-direction we subtract |dz| * cos(dip)
                 # note that dz is negative here
-                d = dist_along_curve * self.object_sin_dip[oi] + dz*self.object_cos_dip[oi] + self.object_shift[oi]
+                # so we add the depth to always get a positive index
+                d = dist_along_curve * self.object_sin_dip[oi] + dz*self.object_cos_dip[oi] + self.object_depth[oi] + self.object_shift[oi]
                 n = int(d/self.object_layer_dist[oi])
                 geo_ids[0] = self.object_facies_array[oi,n]
                 return
-- 
2.43.0


From 1094254fde60dadf6eee66fc2f0a212a00f8fae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:49 +0000
Subject: [PATCH 26/67] fix: interpolate the whole channel centerline, not only
 its beginning

---
 hyvr/optimized.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hyvr/optimized.py b/hyvr/optimized.py
index ac68241..7e4dc83 100644
--- a/hyvr/optimized.py
+++ b/hyvr/optimized.py
@@ -104,6 +104,7 @@ def curve_interp(xc: npt.NDArray[np.float64], yc: npt.NDArray[np.float64],spacin
     t = np.arange(xc[0], nc, spacing * 0.1)
     xc = np.interp(t, np.arange(nc), xc)
     yc = np.interp(t, np.arange(nc), yc)
+    nc = len(xc)
     tol = spacing
     ic, idx = 0, [0]
     while ic < nc:
-- 
2.43.0


From 942623ccf41ff4b5792f8dcb009ad573a4954151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:49 +0000
Subject: [PATCH 27/67] fix: assign cells whose center lies exactly on a
 contact surface

---
 hyvr/assign_points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/assign_points.py b/hyvr/assign_points.py
index dd3a92e..bd09696 100644
--- a/hyvr/assign_points.py
+++ b/hyvr/assign_points.py
@@ -315,7 +315,7 @@ def maybe_assign_points_to_ae(
         return 0
     z_above = top_surface[x_idx, y_idx]
     z_below = bottom_surface[x_idx, y_idx]
-    if z_below < z and z < z_above:
+    if z_below <= z and z <= z_above:
         geo_ids[0] = ae.bg_facies
         angles[0] = ae.bg_azim
         angles[1] = ae.bg_dip
-- 
2.43.0


From 83b3fe22a7265d90476fa5f47fb163eb29b835ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:49 +0000
Subject: [PATCH 28/67] fix: fill strata that are only locally present

---
 hyvr/geo/stratum.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hyvr/geo/stratum.py b/hyvr/geo/stratum.py
index 6c35563..6f6acf6 100644
--- a/hyvr/geo/stratum.py
+++ b/hyvr/geo/stratum.py
@@ -48,7 +48,9 @@ class Stratum:
         # choose type of first AE
         curr_ae_type = prob_choose(self.ae_types, self.params['ae_prob'])
         znow = self.top_surface.zmean
-        while znow > self.bottom_surface.zmean:
+        # (also if the bottom is only in parts of the domain below the top)
+        while znow > self.bottom_surface.zmean or (
+                len(self.aes) == 0 and np.any(self.top_surface.surface > self.bottom_surface.surface)):
 
             num_type = self.ae_type_names.index(curr_ae_type.name)
 
-- 
2.43.0


From 04f3f4a7ead1f0689ed9da285dbff8776bbe1d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:49 +0000
Subject: [PATCH 29/67] fix: write exactly one more vtr coordinate than cells
 in every direction

---
 hyvr/postprocess/output.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyvr/postprocess/output.py b/hyvr/postprocess/output.py
index 867fc1e..e055b54 100644
--- a/hyvr/postprocess/output.py
+++ b/hyvr/postprocess/output.py
@@ -155,9 +155,9 @@ def to_vtr(model, fname):
     try:
         from pyevtk.hl import gridToVTK
         data_dict = {key:model.data[key] for key in model.data if key != "ktensors"}
-        xv = np.arange(model.grid.x0, model.grid.xmax+model.grid.dx, model.grid.dx)
-        yv = np.arange(model.grid.y0, model.grid.ymax+model.grid.dy, model.grid.dy)
-        zv = np.arange(model.grid.z0, model.grid.zmax+model.grid.dz, model.grid.dz)
+        xv = model.grid.x0 + model.grid.dx*np.arange(model.grid.nx+1)
+        yv = model.grid.y0 + model.grid.dy*np.arange(model.grid.ny+1)
+        zv = model.grid.z0 + model.grid.dz*np.arange(model.grid.nz+1)
         gridToVTK(fname, xv, yv, zv, cellData=data_dict)
     except ImportError as e:
         raise type(e)(str(e) + ", vtr output not possible!")
-- 
2.43.0


From aa9c11dd9e3af55b5375d4218c9cd58bcfa2a36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:49 +0000
Subject: [PATCH 30/67] fix: accept contact models independent of case

---
 hyvr/geo/contact_surface.py       | 2 +-
 hyvr/geo/contact_surface_utils.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyvr/geo/contact_surface.py b/hyvr/geo/contact_surface.py
index 6a8b4da..f7cabc0 100644
--- a/hyvr/geo/contact_surface.py
+++ b/hyvr/geo/contact_surface.py
@@ -32,7 +32,7 @@ class ContactSurface:
             self.zmin = self.z
             self.zmax = self.z
 
-        elif self.mode == "dem":
+        else:
             raise NotImplementedError("This is not implemented yet!")
 
 
diff --git a/hyvr/geo/contact_surface_utils.py b/hyvr/geo/contact_surface_utils.py
index bdf9b30..41d2051 100644
--- a/hyvr/geo/contact_surface_utils.py
+++ b/hyvr/geo/contact_surface_utils.py
@@ -1,7 +1,7 @@
 import numpy as np
 
 def parse_contact_model(param_list, depth=False):
-    mode = param_list[0].strip("\"'")
+    mode = param_list[0].strip("\"'").lower()
     cm = {'mode': mode}
     param_idx = 1
     if depth:
-- 
2.43.0


From d0748d6aae1d76e2ab897f71848030148742e388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:49 +0000
Subject: [PATCH 31/67] fix: write mf6 output for a given head gradient

---
 hyvr/postprocess/output.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyvr/postprocess/output.py b/hyvr/postprocess/output.py
index e055b54..3b8e425 100644
--- a/hyvr/postprocess/output.py
+++ b/hyvr/postprocess/output.py
@@ -329,9 +329,9 @@ def to_mf6(model, fname):
         hin = model.flowtrans['hin'][0]
         hout = model.flowtrans['hout'][0]
 
-    elif flowtrans['gradh'] is not None:
+    elif model.flowtrans['gradh'] is not None:
         hout = 1
-        hin = hout + model.grid.lx * flowtrans['gradh']
+        hin = hout + model.grid.lx * model.flowtrans['gradh']
 
     if np.any([model.flowtrans['hin'] is not None, model.flowtrans['gradh'] is not None]):
         chd_rec = []
-- 
2.43.0


From c994c5d4800320300e1fa4e9342b1d456b273117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:49 +0000
Subject: [PATCH 32/67] fix: match MODFLOW row and column spacings with the
 grid

---
 hyvr/postprocess/output.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyvr/postprocess/output.py b/hyvr/postprocess/output.py
index 3b8e425..695b6e8 100644
--- a/hyvr/postprocess/output.py
+++ b/hyvr/postprocess/output.py
@@ -193,7 +193,7 @@ def to_modflow(model, fname):
     zbot = model.grid.z0
     botm = np.linspace(ztop, zbot, model.grid.nz + 1)
     dis = flopy.modflow.ModflowDis(mf, model.grid.nz, model.grid.nx, model.grid.ny, 
-                                   delr=model.grid.dx, delc=model.grid.dy,
+                                   delr=model.grid.dy, delc=model.grid.dx,
                                    top=ztop, botm=botm[1:])
 
     # Variables for the BAS package
@@ -304,8 +304,8 @@ def to_mf6(model, fname):
                                                    nlay=model.grid.nz,
                                                    nrow=model.grid.ny,
                                                    ncol=model.grid.nx,
-                                                   delr=model.grid.dy,
-                                                   delc=model.grid.dx,
+                                                   delr=model.grid.dx,
+                                                   delc=model.grid.dy,
                                                    top=ztop,
                                                    botm=botm[1:],
                                                    filename='{}.dis'.format(runname))
-- 
2.43.0


From 1aa4c023fab9cee444a0eef98d134f493b834911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:49 +0000
Subject: [PATCH 33/67] fix: write exactly one mf6 layer bottom per layer,
 without rounding

---
 hyvr/postprocess/output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/postprocess/output.py b/hyvr/postprocess/output.py
index 695b6e8..6f75350 100644
--- a/hyvr/postprocess/output.py
+++ b/hyvr/postprocess/output.py
@@ -299,7 +299,7 @@ def to_mf6(model, fname):
     """ Create discretization """
     ztop = model.grid.z0 + model.grid.lz
     zbot = model.grid.z0
-    botm = np.around(np.arange(ztop, zbot-model.grid.dz, -model.grid.dz), decimals=3)
+    botm = np.linspace(ztop, zbot, model.grid.nz + 1)
     dis = flopy.mf6.modflow.mfgwfdis.ModflowGwfdis(gwf,
                                                    nlay=model.grid.nz,
                                                    nrow=model.grid.ny,
-- 
2.43.0


From 8f05fd0ad8e196fd07c46bf1fbeb45c721a2afcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:49 +0000
Subject: [PATCH 34/67] fix: write MODFLOW layers from top to bottom

---
 hyvr/postprocess/output.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/hyvr/postprocess/output.py b/hyvr/postprocess/output.py
index 6f75350..cb39f4b 100644
--- a/hyvr/postprocess/output.py
+++ b/hyvr/postprocess/output.py
@@ -207,11 +207,11 @@ def to_modflow(model, fname):
 
     bas = flopy.modflow.ModflowBas(mf, ibound=ibound, strt=strt)
 
-    # Assign hydraulic conductivity
-    hyvr_hk = np.transpose(model.data['k_iso'], (2, 0, 1))
+    # Assign hydraulic conductivity, MODFLOW layers start at the top
+    hyvr_hk = np.transpose(model.data['k_iso'], (2, 0, 1))[::-1]
     hyvr_layvka = 1                                           # VKA dataset is ratio of horizontal K
     if 'anirat' in model.data.keys():
-        hyvr_vka = np.transpose(model.data['anirat'], (2, 0, 1))
+        hyvr_vka = np.transpose(model.data['anirat'], (2, 0, 1))[::-1]
 
         # Add LPF package to the MODFLOW model
         lpf = flopy.modflow.ModflowLpf(mf,                        # Modflow object
@@ -255,13 +255,13 @@ def to_mf6(model, fname):
     mfdir.mkdir(parents=True, exist_ok=True)
     mfname = str(mfdir / runname)
 
-    # Transpose HyVR arrays for MF6 input
+    # Transpose HyVR arrays for MF6 input, layers start at the top
     transpose_order = (2, 1, 0)
-    k_iso = np.transpose(model.data['k_iso'], transpose_order)
+    k_iso = np.transpose(model.data['k_iso'], transpose_order)[::-1]
     if set(['anirat', 'dip', 'azim']).issubset(model.data.keys()):
-        anirat = np.transpose(model.data['anirat'], transpose_order)
-        dip = np.transpose(model.data['dip'], transpose_order)
-        azim = np.transpose(model.data['azim'], transpose_order)
+        anirat = np.transpose(model.data['anirat'], transpose_order)[::-1]
+        dip = np.transpose(model.data['dip'], transpose_order)[::-1]
+        azim = np.transpose(model.data['azim'], transpose_order)[::-1]
         xt3d = True
     else:
         xt3d = False
-- 
2.43.0


From 8a3e4e54ea27e5bc6a59bdc648b482f822dddbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:51 +0000
Subject: [PATCH 35/67] fix: read background dip and facies numbers of
 old-format elements

---
 hyvr/input/parameters.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index a959e57..8a6644e 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -342,9 +342,9 @@ def get_new_parameters_from_deprecated(run, model, strata, hydraulics, flowtrans
         elem = elements[elem_name]
         elem['size_ztrend'] = elem['geo_ztrend']
         if elem['bg'] is not None:
-            elem['bg_facies'] = elem['bg'][0]
+            elem['bg_facies'] = int(elem['bg'][0])
             elem['bg_azim'] = elem['bg'][1]
-            elem['bg_dip'] = elem['bg'][1]
+            elem['bg_dip'] = elem['bg'][2]
         else:
             elem['bg_facies'] = -1
             elem['bg_azim'] = float('NaN')
@@ -359,7 +359,7 @@ def get_new_parameters_from_deprecated(run, model, strata, hydraulics, flowtrans
         if elem['geometry'] in ['trough', 'channel']:
             if elem['lag'] is not None:
                 elem['lag_height'] = elem['lag'][0]
-                elem['lag_facies'] = elem['lag'][1]
+                elem['lag_facies'] = int(elem['lag'][1])
             else:
                 elem['lag_height'] = 0.0
                 elem['lag_facies'] = -1
-- 
2.43.0


From 4ce9104239f0750e5c6e77ed16ea6497bf032523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:51 +0000
Subject: [PATCH 36/67] fix: translate old-format channels and nested bulbs

---
 hyvr/input/parameters.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index 8a6644e..9812757 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -355,6 +355,13 @@ def get_new_parameters_from_deprecated(run, model, strata, hydraulics, flowtrans
         if elem['geometry'] == 'trunc_ellip':
             elem['geometry'] = 'trough'
             elem['trough_density'] = elem['el_z']
+            if elem['structure'] == 'bulb_l':
+                elem['structure'] = 'bulb_sets'
+        elif elem['geometry'] == 'ext_par':
+            elem['geometry'] = 'channel'
+            elem['channel_no'] = int(elem['channel_no'])
+            elem['mig'] = 0.
+            elem['flow_angle'] = 0.
         elem['contact_model'] = parse_old_elem_contact_model(elem)
         if elem['geometry'] in ['trough', 'channel']:
             if elem['lag'] is not None:
-- 
2.43.0


From 7eacea4dc558a6016771051f468293fcd35832ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:51 +0000
Subject: [PATCH 37/67] fix: recognise old-format files with prefixed option
 names

---
 hyvr/input/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index 9812757..8adf2dc 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -103,7 +103,7 @@ def parameters(inifile):
     if len(p.sections()) == 0:
         raise FileNotFoundError("Parameter file {:s} not found!".format(inifile))
 
-    old_format = 'dataoutputs' in dict(p['run'])
+    old_format = 'dataoutputs' in dict(p['run']) or 'l_dataoutputs' in dict(p['run'])
     if old_format:
         run, model, strata, hydraulics, flowtrans, elements = get_new_parameters_from_deprecated(*parse_deprecated_inifile(p))
 
-- 
2.43.0


From 50ee73de76d4845fa73bb46f658904a085ea3fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:14 +0000
Subject: [PATCH 38/67] fix: keep C division for the azimuth of bulbs whose
 normal vector has no x component

---
 hyvr/geo/trough_ae.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/geo/trough_ae.pyx b/hyvr/geo/trough_ae.pyx
index 9307a4f..9da78da 100644
--- a/hyvr/geo/trough_ae.pyx
+++ b/hyvr/geo/trough_ae.pyx
@@ -261,7 +261,7 @@ class TroughAE(AERealization):
                     # x component is negative. This means the x component is
                     # always positive, and the y component is multiplied by the
                     # sign of the x component
-                    azim = -atan(ho.sign(normvec_x)*normvec_y/fabs(normvec_x))\
+                    azim = -atan(<double>ho.sign(normvec_x)*normvec_y/fabs(normvec_x))\
                            / pi*180
             else:
                 # the point is exactly at the center of the trough, this means
-- 
2.43.0


From 925ee5a0f322655d30bbacd9e33c92b31ce7494e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:50 +0000
Subject: [PATCH 39/67] fix: accept empty lists, so that models with a single
 stratum can be described

---
 hyvr/input/option_parsing.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/hyvr/input/option_parsing.py b/hyvr/input/option_parsing.py
index b11d1b9..67a7a3d 100644
--- a/hyvr/input/option_parsing.py
+++ b/hyvr/input/option_parsing.py
@@ -237,6 +237,12 @@ class Option():
 
                 shape = deepcopy(self.shape)
 
+                # an empty list is only possible if its length is arbitrary
+                if value == []:
+                    if shape == -1 or (isinstance(shape, (list, tuple)) and shape[0] == -1):
+                        return value
+                    raise ShapeError(self.name, section.name)
+
                 # now we need to get the correct shape
                 if shape == -1:
                     # we don't care for the shape of this
@@ -312,7 +318,7 @@ def numdim(l):
     """
     if not isinstance(l, (list, tuple)):
         return 0
-    if not isinstance(l[-1], (list, tuple)):
+    if len(l) == 0 or not isinstance(l[-1], (list, tuple)):
         return 1
     else:
         return 1 + numdim(l[-1])
@@ -471,6 +477,8 @@ def parse_list(string, dtype):
         s = s[1:-1] # remove [ and ] from start and end only
     else: # it's just a single item
         return dtype(s)
+    if s == '': # it's an empty list
+        return []
     if s[0] == '[': # it's a list of lists
         splitted = s.split('],')
         for i in range(len(splitted)-1):
-- 
2.43.0


From 52327ce94768c453cfcb160f92b39f1ba11c5630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:32 +0000
Subject: [PATCH 40/67] fix: keep upstream dipping channel layers inside the
 facies list

---
 hyvr/geo/channel.pyx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hyvr/geo/channel.pyx b/hyvr/geo/channel.pyx
index fcd6e3c..41e1658 100644
--- a/hyvr/geo/channel.pyx
+++ b/hyvr/geo/channel.pyx
@@ -96,9 +96,12 @@ cdef class Channel:
                                             +(self.y_center[i] - self.y_center[i-1])**2
                 )
             self.num_facies = int(
-                np.ceil((dist_along_curve*self.sin_dip + self.shift)/self.layer_dist)
+                np.ceil((dist_along_curve*abs(self.sin_dip) + self.shift)/self.layer_dist)
                 + np.ceil(self.depth/self.layer_dist)
             )
+            if self.sin_dip < 0:
+                # keep the distance positive for layers that dip upstream
+                self.shift -= dist_along_curve*self.sin_dip
             self.num_facies += 10  # just to be sure
             self.facies_array = hu.get_alternating_facies(self.num_facies, type_params)
         else:
-- 
2.43.0


From 326d5e4b51b46fae05c7efef3e02c07372aec93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:32 +0000
Subject: [PATCH 41/67] fix: wrap troughs that migrated by more than one domain
 length

---
 hyvr/geo/trough_ae.pyx | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/hyvr/geo/trough_ae.pyx b/hyvr/geo/trough_ae.pyx
index 9da78da..e4a0e0b 100644
--- a/hyvr/geo/trough_ae.pyx
+++ b/hyvr/geo/trough_ae.pyx
@@ -142,13 +142,14 @@ class TroughAE(AERealization):
         dy = y - object_y
         dz = z - object_z
         if grid.periodic:
-            if dx > grid.lx/2:
+            # centers of migrated troughs can be several domain lengths away
+            while dx > grid.lx/2:
                 dx -= grid.lx
-            elif dx < -grid.lx/2:
+            while dx < -grid.lx/2:
                 dx += grid.lx
-            if dy > grid.ly/2:
+            while dy > grid.ly/2:
                 dy -= grid.ly
-            elif dy < -grid.ly/2:
+            while dy < -grid.ly/2:
                 dy += grid.ly
         # it seems to me that this is a bit faster than abs, and speed here is critical
         cdef np.float_t max_ab = self.object_max_ab[oi]
-- 
2.43.0


From 0ceacbbf000700dbcaa234bee5d32ede5795681e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:09 +0000
Subject: [PATCH 42/67] fix: skip channels without centerline points in the
 domain

---
 hyvr/geo/channel_ae.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyvr/geo/channel_ae.pyx b/hyvr/geo/channel_ae.pyx
index b3e27c7..ccf3727 100644
--- a/hyvr/geo/channel_ae.pyx
+++ b/hyvr/geo/channel_ae.pyx
@@ -216,7 +216,8 @@ class ChannelAE(AERealization):
         # These will then be set to 1 in ``dont_check``, so we can skip the
         # check for these.
 
-        if self.object_dont_check[oi,x_idx, y_idx]:
+        # channels that do not run through the domain have no centerline
+        if self.object_dont_check[oi,x_idx, y_idx] or self.object_len_centerline[oi] == 0:
             geo_ids[0] = -1
             return
 
-- 
2.43.0


From 95006d7fd9a87abd5d1cc5af3ae48c806175ad08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:59 +0000
Subject: [PATCH 43/67] fix: parse lists that are nested deeper than two levels

---
 hyvr/input/option_parsing.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/hyvr/input/option_parsing.py b/hyvr/input/option_parsing.py
index 67a7a3d..8eb199a 100644
--- a/hyvr/input/option_parsing.py
+++ b/hyvr/input/option_parsing.py
@@ -480,10 +480,18 @@ def parse_list(string, dtype):
     if s == '': # it's an empty list
         return []
     if s[0] == '[': # it's a list of lists
-        splitted = s.split('],')
-        for i in range(len(splitted)-1):
-            splitted[i] += ']' # splitting removed the closing bracket from all but the last item
+        # split only at commas that are not inside of an inner list
+        splitted = ['']
+        level = 0
+        for char in s:
+            level += (char == '[') - (char == ']')
+            if char == ',' and level == 0:
+                splitted.append('')
+            else:
+                splitted[-1] += char
         l = list(map(lambda x: parse_list(x, dtype), splitted))
+        if len(set(numdim(li) for li in l if li != [])) > 1:
+            raise ValueError('Not all items of this list are nested equally deep: ' + string)
     else:
         splitted = s.split(',')
         l = list(map(dtype, splitted))
-- 
2.43.0


From 3292e5eb07cb775b61d7743bc957726d7a5c366d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:59 +0000
Subject: [PATCH 44/67] fix: expand shapes with more than two different
 dimensions

---
 hyvr/input/option_parsing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/input/option_parsing.py b/hyvr/input/option_parsing.py
index 8eb199a..79293fa 100644
--- a/hyvr/input/option_parsing.py
+++ b/hyvr/input/option_parsing.py
@@ -407,7 +407,7 @@ def expand_shape(shape):
     expanded = [shape[0]]
     for i in range(1, len(shape)):
         next = [shape[i]] * shape[i-1]
-        for j in range(1, i):
+        for j in range(i-2, -1, -1):
             next = [next] * shape[j]
         expanded.append(next)
     return expanded
-- 
2.43.0


From 9dd5115faa6cd7bc60e032c343b0937a69cd2c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:20 +0000
Subject: [PATCH 45/67] fix: expand single values to nested lists, and never to
 an empty list

---
 hyvr/input/option_parsing.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/hyvr/input/option_parsing.py b/hyvr/input/option_parsing.py
index 79293fa..52b0c42 100644
--- a/hyvr/input/option_parsing.py
+++ b/hyvr/input/option_parsing.py
@@ -299,6 +299,14 @@ class Option():
                             if depth < mindepth:
                                 raise ValueError('Option ' + self.name + ' in section ' +
                                                 section.name + ' can not be expanded!')
+                            if depth == len(shape):
+                                # nothing to expand, and all other dimensions fit
+                                return value
+                        shape = expand_shape(shape)
+                    elif any(map(lambda x: x == -1, shape)):
+                        raise ValueError('Option ' + self.name + ' in section ' +
+                                         section.name + ' can not be expanded!')
+                    else:
                         shape = expand_shape(shape)
 
                 # Now we have an expanded shape, so only two tasks remain:
-- 
2.43.0


From 819370c87c8e904eb502b18b5714919ce037ab32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:20 +0000
Subject: [PATCH 46/67] fix: reject lists without closing bracket instead of
 dropping their last character

---
 hyvr/input/option_parsing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hyvr/input/option_parsing.py b/hyvr/input/option_parsing.py
index 52b0c42..136c5aa 100644
--- a/hyvr/input/option_parsing.py
+++ b/hyvr/input/option_parsing.py
@@ -482,6 +482,8 @@ def parse_list(string, dtype):
     # l =  string.replace('[', '').replace(']', '').replace(' ', '').split(',')
     s = string.replace(' ', '') # remove all spaces first
     if s[0] == '[': # it's not only a single item
+        if s[-1] != ']':
+            raise ValueError('The closing bracket is missing: ' + string)
         s = s[1:-1] # remove [ and ] from start and end only
     else: # it's just a single item
         return dtype(s)
-- 
2.43.0


From 2ea523dd489f5d3e1e9ef965c51ca730a2111a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:30 +0000
Subject: [PATCH 47/67] fix: reject brackets inside of list items

---
 hyvr/input/option_parsing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/input/option_parsing.py b/hyvr/input/option_parsing.py
index 136c5aa..af5c4d0 100644
--- a/hyvr/input/option_parsing.py
+++ b/hyvr/input/option_parsing.py
@@ -489,7 +489,7 @@ def parse_list(string, dtype):
         return dtype(s)
     if s == '': # it's an empty list
         return []
-    if s[0] == '[': # it's a list of lists
+    if '[' in s or ']' in s: # it's a list of lists
         # split only at commas that are not inside of an inner list
         splitted = ['']
         level = 0
-- 
2.43.0


From 1755c4e3128195182ae0c40237d35982a7190f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:36 +0000
Subject: [PATCH 48/67] fix: generate exactly one sheet for massive bedding,
 independent of rounding

---
 hyvr/geo/sheet_ae.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hyvr/geo/sheet_ae.py b/hyvr/geo/sheet_ae.py
index 06be906..264a91e 100644
--- a/hyvr/geo/sheet_ae.py
+++ b/hyvr/geo/sheet_ae.py
@@ -71,6 +71,9 @@ class SheetAE(AERealization):
             thickness = self.type_params['lens_thickness']
 
         zbottom = self.zmax - thickness
+        if self.type_params['lens_thickness'] == -1:
+            # exactly one sheet, also if the difference above was rounded
+            zbottom = self.zmin
         top_surface = self.top_surface
         # create all sheets except the lowest one
         last_sheet = False
-- 
2.43.0


From 651606db4769f8aa2ac387a0a1793b07310bbec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:02 +0000
Subject: [PATCH 49/67] fix: overwrite run directories that contain symbolic
 links

---
 hyvr/input/parameters.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index 8adf2dc..76f29c8 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -511,10 +511,10 @@ def set_up_directories(run, inifile, overwrite_old_output=None):
             for f in os.listdir(run['rundir']):
                 path = os.path.join(run['rundir'], f)
                 path = run['rundir'] / f
-                if path.is_file():
-                    path.unlink()
-                elif path.is_dir():
+                if path.is_dir() and not path.is_symlink():
                     shutil.rmtree(path)
+                else:
+                    path.unlink()
         else:
             raise FileExistsError(
                 "Run directory already exists and overwrite flag is "
-- 
2.43.0


From 8d287c9ab9ef8148240596f3b0e936f45959179d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:02 +0000
Subject: [PATCH 50/67] fix: reject unknown architectural elements before
 touching the run directory

---
 hyvr/input/parameters.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index 76f29c8..17aaf8d 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -49,6 +49,9 @@ def setup_from_inifile(inifile, flag_ow):
     # Assign architectural element identifiers
     for element in elements.keys():
         elements[element]['ae_id'] = strata_dict['ae'].index(element)
+    for ae_name in sum(strata_dict['ae_in_strata'], []):
+        if ae_name not in elements:
+            raise ValueError('Unknown architectural element in ae_in_strata: ' + ae_name)
 
     # create model object
     model = Model(model_dict, strata_dict, elements, flowtrans)
-- 
2.43.0


From b59d8b332e9d7b65f7996f3d3e49b29147f83343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:02 +0000
Subject: [PATCH 51/67] fix: use the option names that flopy has for the mf6
 solver

---
 hyvr/postprocess/output.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyvr/postprocess/output.py b/hyvr/postprocess/output.py
index cb39f4b..4afe00a 100644
--- a/hyvr/postprocess/output.py
+++ b/hyvr/postprocess/output.py
@@ -284,11 +284,11 @@ def to_mf6(model, fname):
     ims = flopy.mf6.ModflowIms(sim,
                                print_option='SUMMARY',
                                complexity='COMPLEX',
-                               outer_hclose=1e-3,
+                               outer_dvclose=1e-3,
                                outer_maximum=500,
                                under_relaxation='NONE',
                                inner_maximum=100,
-                               inner_hclose=1e-4,
+                               inner_dvclose=1e-4,
                                rcloserecord=0.001,
                                linear_acceleration='BICGSTAB',
                                scaling_method='NONE',
-- 
2.43.0


From 8215ea60a63e210ebd32a127bb1b75b46b414cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:45 +0000
Subject: [PATCH 52/67] fix: ask mf6 for the full conductivity tensor that the
 angles describe

---
 hyvr/postprocess/output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/postprocess/output.py b/hyvr/postprocess/output.py
index 4afe00a..0cb9fd3 100644
--- a/hyvr/postprocess/output.py
+++ b/hyvr/postprocess/output.py
@@ -313,7 +313,7 @@ def to_mf6(model, fname):
     """ Create Node Property Flow package object """
     if xt3d is True:
         npf_package = flopy.mf6.ModflowGwfnpf(gwf,
-                                              save_flows=True, icelltype=0, xt3doptions='',
+                                              save_flows=True, icelltype=0, xt3doptions='xt3d',
                                               k=k_iso,                                  # within-bedding hydraulic conductivity
                                               k33=k_iso/anirat,                         # across-bedding hydraulic conductivity
                                               angle1=azim,                              # azimuth
-- 
2.43.0


From 16ca559fa0721015dc1c432710203128524afce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:16 +0000
Subject: [PATCH 53/67] fix: random fields on even numbers of cells lacked
 variance

The covariance function was centred between two cells, so that the variance
of the field was the covariance at half a cell diagonal.
---
 hyvr/geo/grid.py |  8 ++++----
 hyvr/utils.py    | 10 +++++-----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/hyvr/geo/grid.py b/hyvr/geo/grid.py
index 3f02e8a..8f92819 100644
--- a/hyvr/geo/grid.py
+++ b/hyvr/geo/grid.py
@@ -62,10 +62,10 @@ class Grid:
         # create meshgrid
         # The order here is such that the final matrices have shape (nx, ny, nz)
         self.Y, self.X, self.Z = np.meshgrid(self.y, self.x, self.z)
-        # centered grids are necessary for specsim
-        self.X_centered = self.X - (np.min(self.X) + np.max(self.X))/2
-        self.Y_centered = self.Y - (np.min(self.Y) + np.max(self.Y))/2
-        self.Z_centered = self.Z - (np.min(self.Z) + np.max(self.Z))/2
+        # centered grids are necessary for specsim, their origin is a cell center
+        self.X_centered = self.X - self.x[self.nx//2]
+        self.Y_centered = self.Y - self.y[self.ny//2]
+        self.Z_centered = self.Z - self.z[self.nz//2]
 
 
 
diff --git a/hyvr/utils.py b/hyvr/utils.py
index d093707..872638b 100644
--- a/hyvr/utils.py
+++ b/hyvr/utils.py
@@ -455,8 +455,8 @@ def specsim(grid, var, corl, selection_mask=None, two_dim=False, covmod='gaussia
             rectangular_mask[min_x_idx:max_x_idx+1,min_y_idx:max_y_idx+1] = True
             selected_X = grid.X[min_x_idx:max_x_idx+1,min_y_idx:max_y_idx+1,0]
             selected_Y = grid.Y[min_x_idx:max_x_idx+1,min_y_idx:max_y_idx+1,0]
-            selected_X_centered = selected_X - (np.min(selected_X) + np.max(selected_X))/2
-            selected_Y_centered = selected_Y - (np.min(selected_Y) + np.max(selected_Y))/2
+            selected_X_centered = selected_X - selected_X[selected_X.shape[0]//2, 0]
+            selected_Y_centered = selected_Y - selected_Y[0, selected_Y.shape[1]//2]
             selection_mask_small = selection_mask[min_x_idx:max_x_idx+1,min_y_idx:max_y_idx+1]
 
             h_square = (selected_X_centered/corl[0])**2 \
@@ -478,9 +478,9 @@ def specsim(grid, var, corl, selection_mask=None, two_dim=False, covmod='gaussia
             selected_X = grid.X[min_x_idx:max_x_idx+1,min_y_idx:max_y_idx+1,min_z_idx:max_z_idx+1]
             selected_Y = grid.Y[min_x_idx:max_x_idx+1,min_y_idx:max_y_idx+1,min_z_idx:max_z_idx+1]
             selected_Z = grid.Z[min_x_idx:max_x_idx+1,min_y_idx:max_y_idx+1,min_z_idx:max_z_idx+1]
-            selected_X_centered = selected_X - (np.min(selected_X) + np.max(selected_X))/2
-            selected_Y_centered = selected_Y - (np.min(selected_Y) + np.max(selected_Y))/2
-            selected_Z_centered = selected_Z - (np.min(selected_Z) + np.max(selected_Z))/2
+            selected_X_centered = selected_X - selected_X[selected_X.shape[0]//2, 0, 0]
+            selected_Y_centered = selected_Y - selected_Y[0, selected_Y.shape[1]//2, 0]
+            selected_Z_centered = selected_Z - selected_Z[0, 0, selected_Z.shape[2]//2]
             selection_mask_small = selection_mask[min_x_idx:max_x_idx+1,min_y_idx:max_y_idx+1,min_z_idx:max_z_idx+1]
 
             h_square = (selected_X_centered/corl[0])**2 \
-- 
2.43.0


From 12e67a04727025d716e963c6d889586e7b50ced9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:10 +0000
Subject: [PATCH 54/67] fix: noise of channel directions had a mean, so that
 all channels curled to one side

---
 hyvr/geo/channel_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/geo/channel_utils.py b/hyvr/geo/channel_utils.py
index 3aaadba..25132ef 100644
--- a/hyvr/geo/channel_utils.py
+++ b/hyvr/geo/channel_utils.py
@@ -130,7 +130,7 @@ def ferguson_theta(s, eps_factor, k, h):
         else:
             t1 = th_store[idex-1]
             t2 = th_store[idex-2]
-            eps = np.random.normal(1)*eps_factor
+            eps = np.random.normal()*eps_factor
 
         th_store[idex] = thetaAR2(t1, t2, k, h, eps)
 
-- 
2.43.0


From ed1fa1d672ca72da4ca54fa99cffd489fc560dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:59 +0000
Subject: [PATCH 55/67] fix: channels with closely spaced centreline points
 ended inside of the domain

---
 hyvr/geo/channel_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/geo/channel_utils.py b/hyvr/geo/channel_utils.py
index 25132ef..d4450e1 100644
--- a/hyvr/geo/channel_utils.py
+++ b/hyvr/geo/channel_utils.py
@@ -47,7 +47,7 @@ def ferguson_curve(grid, h, k, ds, eps_factor, flow_angle, domain_length, xstart
     theta = ferguson_theta(s, eps_factor, k, h)
 
     # Interpolate curve direction over interval of interest
-    s_interp, th_interp = curve_interp(s, theta, 0.1)
+    s_interp, th_interp = curve_interp(s, theta, min(0.1, ds))
 
     # Storage array
     outputs = np.zeros((len(th_interp), 4))
-- 
2.43.0


From 5e7c8638d5c910c3cbe2c7e8e7c07ffe74f5884e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:26 +0000
Subject: [PATCH 56/67] fix: cross sections were taken at the wrong index

---
 hyvr/postprocess/plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyvr/postprocess/plotting.py b/hyvr/postprocess/plotting.py
index 7e677c2..55e2609 100644
--- a/hyvr/postprocess/plotting.py
+++ b/hyvr/postprocess/plotting.py
@@ -46,7 +46,7 @@ def cross_section_pcolor(model, field, y=None, x=None, log=False, xlim_y=None, y
 
     for yi in y:
         fig, ax = plt.subplots()
-        y_index = int(np.round((yi-(model.grid.y0+model.grid.dy/2)/model.grid.dy)))
+        y_index = int(np.round((yi-(model.grid.y0+model.grid.dy/2))/model.grid.dy))
         if 0 <= y_index and y_index < model.grid.ny:
             im = ax.pcolor(model.grid.X[:,y_index,:].T, model.grid.Z[:,y_index,:].T,
                     model.data[field][:,y_index,:].T, cmap=cmap)
@@ -63,7 +63,7 @@ def cross_section_pcolor(model, field, y=None, x=None, log=False, xlim_y=None, y
 
     for xi in x:
         fig, ax = plt.subplots()
-        x_index = int(np.round((xi-(model.grid.x0+model.grid.dx/2)/model.grid.dx)))
+        x_index = int(np.round((xi-(model.grid.x0+model.grid.dx/2))/model.grid.dx))
         if 0 <= x_index and x_index < model.grid.nx:
             im = ax.pcolor(model.grid.Y[x_index,:,:].T, model.grid.Z[x_index,:,:].T,
                     model.data[field][x_index,:,:].T, cmap=cmap)
-- 
2.43.0


From c9cb2e30a7f5ddde9cab25480147c9c05788aeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:26 +0000
Subject: [PATCH 57/67] fix: cross sections could not be shown (plt.show takes
 no figure)

---
 hyvr/postprocess/plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyvr/postprocess/plotting.py b/hyvr/postprocess/plotting.py
index 55e2609..ba1c552 100644
--- a/hyvr/postprocess/plotting.py
+++ b/hyvr/postprocess/plotting.py
@@ -57,7 +57,7 @@ def cross_section_pcolor(model, field, y=None, x=None, log=False, xlim_y=None, y
             if ylim_y is not None: ax.set_ylim(ylim_y)
             ax.set_aspect('equal')
             fig.colorbar(im, ax=ax)
-            plt.show(fig)
+            plt.show()
         else:
             print("Warning: y = {:.2f} not in model domain".format(yi), file=sys.stderr)
 
@@ -74,7 +74,7 @@ def cross_section_pcolor(model, field, y=None, x=None, log=False, xlim_y=None, y
             if ylim_x is not None: ax.set_ylim(ylim_x)
             ax.set_aspect('equal')
             fig.colorbar(im, ax=ax)
-            plt.show(fig)
+            plt.show()
         else:
             print("Warning: x = {:.2f} not in model domain".format(xi), file=sys.stderr)
 
-- 
2.43.0


From e4effaa2c65450ad2c2c336117eeaedf3917e370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:26 +0000
Subject: [PATCH 58/67] fix: cross sections ignored the log option

---
 hyvr/postprocess/plotting.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hyvr/postprocess/plotting.py b/hyvr/postprocess/plotting.py
index ba1c552..07367eb 100644
--- a/hyvr/postprocess/plotting.py
+++ b/hyvr/postprocess/plotting.py
@@ -43,13 +43,14 @@ def cross_section_pcolor(model, field, y=None, x=None, log=False, xlim_y=None, y
         y = [y]
     if np.isscalar(x):
         x = [x]
+    data = np.log10(model.data[field]) if log else model.data[field]
 
     for yi in y:
         fig, ax = plt.subplots()
         y_index = int(np.round((yi-(model.grid.y0+model.grid.dy/2))/model.grid.dy))
         if 0 <= y_index and y_index < model.grid.ny:
             im = ax.pcolor(model.grid.X[:,y_index,:].T, model.grid.Z[:,y_index,:].T,
-                    model.data[field][:,y_index,:].T, cmap=cmap)
+                    data[:,y_index,:].T, cmap=cmap)
             ax.set_title(field + ', y = {:.2f}'.format(yi))
             ax.set_xlabel('x')
             ax.set_ylabel('z')
@@ -66,7 +67,7 @@ def cross_section_pcolor(model, field, y=None, x=None, log=False, xlim_y=None, y
         x_index = int(np.round((xi-(model.grid.x0+model.grid.dx/2))/model.grid.dx))
         if 0 <= x_index and x_index < model.grid.nx:
             im = ax.pcolor(model.grid.Y[x_index,:,:].T, model.grid.Z[x_index,:,:].T,
-                    model.data[field][x_index,:,:].T, cmap=cmap)
+                    data[x_index,:,:].T, cmap=cmap)
             ax.set_title(field + ', x = {:.2f}'.format(xi))
             ax.set_xlabel('y')
             ax.set_ylabel('z')
-- 
2.43.0


From cfd5448a907235ffb4e20239955a8a80c12398c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:04 +0000
Subject: [PATCH 59/67] fix: massive channels ignored their azimuth

---
 hyvr/geo/channel.pyx     | 1 +
 hyvr/input/parameters.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/hyvr/geo/channel.pyx b/hyvr/geo/channel.pyx
index 41e1658..c8acafe 100644
--- a/hyvr/geo/channel.pyx
+++ b/hyvr/geo/channel.pyx
@@ -106,5 +106,6 @@ cdef class Channel:
             self.facies_array = hu.get_alternating_facies(self.num_facies, type_params)
         else:
             # massive internal structure
+            self.azim = np.random.uniform(*type_params['azimuth'])
             self.dip = np.random.uniform(*type_params['dip'])
             self.facies = np.random.choice(type_params['facies'])
diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index 17aaf8d..d097e38 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -365,6 +365,7 @@ def get_new_parameters_from_deprecated(run, model, strata, hydraulics, flowtrans
             elem['channel_no'] = int(elem['channel_no'])
             elem['mig'] = 0.
             elem['flow_angle'] = 0.
+            elem['azimuth'] = [0., 0.]
         elem['contact_model'] = parse_old_elem_contact_model(elem)
         if elem['geometry'] in ['trough', 'channel']:
             if elem['lag'] is not None:
-- 
2.43.0


From 151af50a802aaad0f8021013c242074f7a5ba075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:15 +0000
Subject: [PATCH 60/67] fix: old heterogeneity level 'ae' gave a model without
 conductivities

Old-format files with hetlev = ae were accepted although this level does not
exist anymore; conductivity and porosity were zero everywhere.
---
 hyvr/input/parameters.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index d097e38..fbc7e85 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -319,6 +319,8 @@ def get_new_parameters_from_deprecated(run, model, strata, hydraulics, flowtrans
     model['hydraulics'] = hydraulics['gen']
     model['heterogeneity'] = run['het']
     model['heterogeneity_level'] = model['hetlev']
+    if model['hetlev'] == 'ae':
+        raise ValueError("Heterogeneity level 'ae' is not supported anymore!")
     if model['display']:
         raise ValueError('display option is not supported anymore')
 
-- 
2.43.0


From ffdd9b85d23e5cb17859558dcb7fa82a23f41bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:52 +0000
Subject: [PATCH 61/67] fix: old-format files with unknown facies or without
 layer distance were accepted

Facies numbers outside of the list of hydrofacies gave cells without
conductivity or failed during the simulation, a missing dipset_d or bulbset_d
only failed after the old results had been deleted. Both are now rejected
while reading the file, as in the new format.
---
 hyvr/input/parameters.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index fbc7e85..104155b 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -345,6 +345,11 @@ def get_new_parameters_from_deprecated(run, model, strata, hydraulics, flowtrans
     # element sections
     for elem_name in elements:
         elem = elements[elem_name]
+        # layers need a distance, as in the new format
+        if elem['structure'] in ['dip', 'random'] and elem['dipset_d'] is None:
+            raise MissingOptionError('dipset_d', elem_name)
+        if elem['structure'] in ['bulb_l', 'random'] and elem['bulbset_d'] is None:
+            raise MissingOptionError('bulbset_d', elem_name)
         elem['size_ztrend'] = elem['geo_ztrend']
         if elem['bg'] is not None:
             elem['bg_facies'] = int(elem['bg'][0])
@@ -379,6 +384,15 @@ def get_new_parameters_from_deprecated(run, model, strata, hydraulics, flowtrans
 
 
 
+    # facies are given by number
+    facies = list(strata['bg_facies'])
+    for elem in elements.values():
+        facies += elem['facies'] + sum(elem['altfacies'] or [], [])
+        facies += [elem['bg_facies']] if elem['bg'] is not None else []
+        facies += [elem['lag_facies']] if elem.get('lag') is not None else []
+    if not all(0 <= f < len(hydraulics['hydro']) for f in facies):
+        raise ValueError('Invalid facies number, there are only facies 0 to ' + str(len(hydraulics['hydro']) - 1))
+
     return run, model, strata, hydraulics, flowtrans, elements
 
 
-- 
2.43.0


From 34addd7bb6b547ed2357b627070c3b60f55bdd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:22 +0000
Subject: [PATCH 62/67] fix: list options written on several lines were
 rejected or read with line breaks in their items

---
 hyvr/input/option_parsing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/input/option_parsing.py b/hyvr/input/option_parsing.py
index af5c4d0..acf1315 100644
--- a/hyvr/input/option_parsing.py
+++ b/hyvr/input/option_parsing.py
@@ -480,7 +480,7 @@ def parse_list(string, dtype):
     ``dtype``. Returns a single value if only a single value is given.
     """
     # l =  string.replace('[', '').replace(']', '').replace(' ', '').split(',')
-    s = string.replace(' ', '') # remove all spaces first
+    s = ''.join(string.split()) # remove all spaces and line breaks first
     if s[0] == '[': # it's not only a single item
         if s[-1] != ']':
             raise ValueError('The closing bracket is missing: ' + string)
-- 
2.43.0


From 66cb45095f9aeaaf58c060be0edc06d5eb479e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:50 +0000
Subject: [PATCH 63/67] fix: malformed lists of strings or with blanks inside
 of items were accepted

---
 hyvr/input/option_parsing.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/hyvr/input/option_parsing.py b/hyvr/input/option_parsing.py
index acf1315..795ece7 100644
--- a/hyvr/input/option_parsing.py
+++ b/hyvr/input/option_parsing.py
@@ -480,12 +480,14 @@ def parse_list(string, dtype):
     ``dtype``. Returns a single value if only a single value is given.
     """
     # l =  string.replace('[', '').replace(']', '').replace(' ', '').split(',')
-    s = ''.join(string.split()) # remove all spaces and line breaks first
-    if s[0] == '[': # it's not only a single item
+    s = string.strip() # remove spaces and line breaks around the list or item
+    if s[:1] == '[': # it's not only a single item
         if s[-1] != ']':
             raise ValueError('The closing bracket is missing: ' + string)
-        s = s[1:-1] # remove [ and ] from start and end only
+        s = s[1:-1].strip() # remove [ and ] from start and end only
     else: # it's just a single item
+        if s == '' or any(char in s for char in '[],'):
+            raise ValueError('This is not a valid item or list: ' + string)
         return dtype(s)
     if s == '': # it's an empty list
         return []
@@ -503,8 +505,7 @@ def parse_list(string, dtype):
         if len(set(numdim(li) for li in l if li != [])) > 1:
             raise ValueError('Not all items of this list are nested equally deep: ' + string)
     else:
-        splitted = s.split(',')
-        l = list(map(dtype, splitted))
+        l = list(map(lambda x: parse_list(x, dtype), s.split(',')))
     return l
 
 def parse_bool(section, optionname):
-- 
2.43.0


From 6d5cd69cf28b86427fd29fbbf7a5fb7eb7e0e096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:33 +0000
Subject: [PATCH 64/67] fix: backup of the parameter file was written in the
 encoding of the locale, but is read as utf-8

---
 hyvr/input/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index 104155b..7521d25 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -545,5 +545,5 @@ def set_up_directories(run, inifile, overwrite_old_output=None):
         run['rundir'].mkdir(parents=True, exist_ok=True)
 
     backup_file = run['rundir'] / (run['runname'] + '_autogenerated_backup.ini')
-    with open(backup_file, 'w') as f:
+    with open(backup_file, 'w', encoding='utf-8') as f:
         p.write(f)
-- 
2.43.0


From d6c7f4ec4db50a2d40e82cd33aa1b88f50d9c9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:29 +0000
Subject: [PATCH 65/67] fix: dipping layers of sheets dipped to the opposite
 side of what the conductivity tensors (and the documented rotation matrix)
 have

---
 hyvr/geo/sheet.py  | 4 ++--
 hyvr/geo/sheet.pyx | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyvr/geo/sheet.py b/hyvr/geo/sheet.py
index 2d6714e..41cf389 100644
--- a/hyvr/geo/sheet.py
+++ b/hyvr/geo/sheet.py
@@ -60,8 +60,8 @@ class Sheet:
             cos_dip = np.cos(self.dip*np.pi/180)
             sin_azim = np.sin(self.azim*np.pi/180)
             cos_azim = np.cos(self.azim*np.pi/180)
-            self.normvec_x = -sin_dip*cos_azim
-            self.normvec_y = sin_dip*sin_azim
+            self.normvec_x = sin_dip*cos_azim
+            self.normvec_y = -sin_dip*sin_azim
             self.normvec_z = cos_dip
 
 
diff --git a/hyvr/geo/sheet.pyx b/hyvr/geo/sheet.pyx
index 48c1bfd..d6c1c44 100644
--- a/hyvr/geo/sheet.pyx
+++ b/hyvr/geo/sheet.pyx
@@ -45,8 +45,8 @@ cdef class Sheet:
             cos_dip = cos(self.dip*np.pi/180)
             sin_azim = sin(self.azim*np.pi/180)
             cos_azim = cos(self.azim*np.pi/180)
-            self.normvec_x = -sin_dip*cos_azim
-            self.normvec_y = sin_dip*sin_azim
+            self.normvec_x = sin_dip*cos_azim
+            self.normvec_y = -sin_dip*sin_azim
             self.normvec_z = cos_dip
 
 
-- 
2.43.0


From 6eb905e6436292268c4a61fbe0108b2c807c9610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:29 +0000
Subject: [PATCH 66/67] fix: the dip of bulbs pointed to the opposite side of
 the trough (as soon as a cell was below its rim)

---
 hyvr/geo/trough_ae.pyx | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/hyvr/geo/trough_ae.pyx b/hyvr/geo/trough_ae.pyx
index e4a0e0b..606ee94 100644
--- a/hyvr/geo/trough_ae.pyx
+++ b/hyvr/geo/trough_ae.pyx
@@ -242,16 +242,15 @@ class TroughAE(AERealization):
                 else:
                     # The dip angle can be found as acos of the normalized
                     # scalar product of unit z-vector and normal vector
-                    # It should be negative, if the gradient points in positive
+                    # It should be positive, if the gradient points in positive
                     # x direction and in positive z direction, or if it points
                     # in negative x and z direction.
-                    # direction.
                     if normvec_z == 0:
                         # in this case only the sign of x is relevant
                         dip = -acos(fabs(normvec_z))*ho.sign(normvec_x)/pi*180
                     else:
-                        dip = -acos(fabs(normvec_z))\
-                              * ho.sign(normvec_x*normvec_z)/ pi*180
+                        dip = acos(fabs(normvec_z))\
+                              * ho.sign(normvec_x)*ho.sign(normvec_z)/ pi*180
 
                     # The azimuth angle should also be between -90 and 90. It is
                     # the angle between the projection of the normal vector into
-- 
2.43.0


From a073dc50b364ace166af4c1966390d1c69727c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:48 +0000
Subject: [PATCH 67/67] fix: limits of a contact surface follow when it is cut
 at another one

---
 hyvr/geo/contact_surface.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hyvr/geo/contact_surface.py b/hyvr/geo/contact_surface.py
index f7cabc0..e35218d 100644
--- a/hyvr/geo/contact_surface.py
+++ b/hyvr/geo/contact_surface.py
@@ -45,6 +45,7 @@ class ContactSurface:
                     self.surface[i,j] = other_surf[i,j]
         # using the higher of both values might have changed the minimum 
         self.zmin = np.min(self.surface)
+        self.zmax = np.max(self.surface)
 
 
 
@@ -55,4 +56,5 @@ class ContactSurface:
                 if self.surface[i,j] < other_surf[i,j]:
                     self.surface[i,j] = other_surf[i,j]
         # using the higher of both values might have changed the maximum 
+        self.zmin = np.min(self.surface)
         self.zmax = np.max(self.surface)
\ No newline at end of file
-- 
2.43.0

