From e668c891590e41cae7aa5381af0fb62945ac7620 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:38:09 +0000
Subject: [PATCH 01/26] fix: disconnect layers in the vectorized 3D
 transmissibility matrix

get_cells_G_diag_3 zeroed the connection between the last row of a layer and
the first row of the next one for a single cell only, so vectorized 3D runs
had spurious connections and differed from the symbolic assembly.
---
 reservoirflow/grids/regular_cartesian.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/reservoirflow/grids/regular_cartesian.py b/reservoirflow/grids/regular_cartesian.py
index ac7678b..4bbdf34 100644
--- a/reservoirflow/grids/regular_cartesian.py
+++ b/reservoirflow/grids/regular_cartesian.py
@@ -2847,13 +2847,16 @@ class RegularCartesian(Grid):
             n3 = self.nx_b * self.ny_b
             n3_ = n3 - self.nx_b
             n4 = n3 * self.nz_b - n3
-            diag_2_zero_ids = n3_ + np.arange(0, self.nx_b, n3)
+            nx, nz = self.nx_b, self.nz_b
         else:
             n3 = self.nx * self.ny
             n3_ = n3 - self.nx
             n4 = n3 * self.nz - n3
-            diag_2_zero_ids = n3_ + np.arange(0, self.nx, n3)
+            nx, nz = self.nx, self.nz
         if diag_2 is not None:
+            # last row of each layer is not connected to the next layer:
+            layers = n3 * np.arange(nz - 1).reshape(-1, 1)
+            diag_2_zero_ids = n3_ + layers + np.arange(nx)
             diag_2[diag_2_zero_ids] = 0
         k = self.get_cells_k(dir, boundary, False, "array")
         A = self.get_cells_A(dir, boundary, False)
-- 
2.43.0


From d02236a3c236be7334930e5263c76871f17aed2b Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:43:26 +0000
Subject: [PATCH 02/26] fix: grid queries return their own result, not a shared
 attribute

Concurrent callers (threaded assembly, several models on one grid) could
read back a value another call had just stored in self.shape, self.n, etc.
---
 reservoirflow/grids/regular_cartesian.py | 183 +++++++++++++----------
 1 file changed, 100 insertions(+), 83 deletions(-)

diff --git a/reservoirflow/grids/regular_cartesian.py b/reservoirflow/grids/regular_cartesian.py
index 4bbdf34..ceb0382 100644
--- a/reservoirflow/grids/regular_cartesian.py
+++ b/reservoirflow/grids/regular_cartesian.py
@@ -175,12 +175,12 @@ class RegularCartesian(Grid):
         int
             number of dimensions higher than 1.
         """
-        self.D = sum([1 if n > 1 else 0 for n in (self.nx, self.ny, self.nz)])
+        self.D = D = sum([1 if n > 1 else 0 for n in (self.nx, self.ny, self.nz)])
 
         if self.verbose:
-            print(f"[info] D is {self.D}.")
+            print(f"[info] D is {D}.")
 
-        return self.D
+        return D
 
     @_lru_cache(maxsize=2)
     def get_shape(self, boundary: bool = False) -> tuple:
@@ -198,28 +198,28 @@ class RegularCartesian(Grid):
             the number of grids as (nx, ny, nz).
         """
         if boundary:
-            self.get_fdir()
-            if "x" in self.fdir:
+            fdir = self.get_fdir()
+            if "x" in fdir:
                 self.nx_b = self.nx + 2
             else:
                 self.nx_b = self.nx
-            if "y" in self.fdir:
+            if "y" in fdir:
                 self.ny_b = self.ny + 2
             else:
                 self.ny_b = self.ny
-            if "z" in self.fdir:
+            if "z" in fdir:
                 self.nz_b = self.nz + 2
             else:
                 self.nz_b = self.nz
-            self.shape = (self.nx_b, self.ny_b, self.nz_b)
+            self.shape = shape = (self.nx_b, self.ny_b, self.nz_b)
         else:
-            self.shape = (self.nx, self.ny, self.nz)
+            self.shape = shape = (self.nx, self.ny, self.nz)
 
         if self.verbose:
             s = utils.helpers.get_boundary_str(boundary)
-            print(f"[info] shape {s} is {self.shape}.")
+            print(f"[info] shape {s} is {shape}.")
 
-        return self.shape
+        return shape
 
     @_lru_cache(maxsize=2)
     def get_n(self, boundary: bool = True) -> int:
@@ -236,13 +236,15 @@ class RegularCartesian(Grid):
             total number of cells.
         """
         shape = self.get_shape(boundary)
-        self.n = np.prod(shape)
+        n = np.prod(shape)
 
         if self.verbose:
             s = utils.helpers.get_boundary_str(boundary)
-            print(f"[info] n {s} is {self.n}.")
+            print(f"[info] n {s} is {n}.")
 
-        return self.n
+        self.n = n
+
+        return n
 
     @_lru_cache(maxsize=2)
     def get_n_max(self, boundary: bool = True):
@@ -259,13 +261,15 @@ class RegularCartesian(Grid):
             maximum number of grids as max(nx, ny, nz).
         """
         shape = self.get_shape(boundary)
-        self.n_max = max(shape)
+        n_max = max(shape)
 
         if self.verbose:
             s = utils.helpers.get_boundary_str(boundary)
-            print(f"[info] n_max {s} is {self.n_max}.")
+            print(f"[info] n_max {s} is {n_max}.")
+
+        self.n_max = n_max
 
-        return self.n_max
+        return n_max
 
     @_lru_cache(maxsize=1)
     def get_fdir(self) -> str:
@@ -277,34 +281,36 @@ class RegularCartesian(Grid):
             contains one or combination of ('-','x','y','z') based on
             the grid dimensions that are higher than 1.
         """
-        self.get_D()
-        self.get_shape(False)
+        D = self.get_D()
+        shape = self.get_shape(False)
 
-        if self.D == 0:
-            self.fdir = "-"
-        elif self.D == 1:
-            flow_dir_id = np.argmax(self.shape)
+        if D == 0:
+            fdir = "-"
+        elif D == 1:
+            flow_dir_id = np.argmax(shape)
             if flow_dir_id == 0:
-                self.fdir = "x"
+                fdir = "x"
             elif flow_dir_id == 1:
-                self.fdir = "y"
+                fdir = "y"
             elif flow_dir_id == 2:
-                self.fdir = "z"
-        elif self.D == 2:
-            flow_dir_id = np.argmin(self.shape)
+                fdir = "z"
+        elif D == 2:
+            flow_dir_id = np.argmin(shape)
             if flow_dir_id == 2:
-                self.fdir = "xy"
+                fdir = "xy"
             elif flow_dir_id == 1:
-                self.fdir = "xz"
+                fdir = "xz"
             elif flow_dir_id == 0:
-                self.fdir = "yz"
-        elif self.D == 3:
-            self.fdir = "xyz"
+                fdir = "yz"
+        elif D == 3:
+            fdir = "xyz"
 
         if self.verbose:
-            print(f"[info] fdir is {self.fdir}.")
+            print(f"[info] fdir is {fdir}.")
+
+        self.fdir = fdir
 
-        return self.fdir
+        return fdir
 
     @_lru_cache(maxsize=2)
     def get_fshape(
@@ -327,55 +333,58 @@ class RegularCartesian(Grid):
         tuple
             number of grids at flow directions in z, y, x order.
         """
+        fdir = self.get_fdir()
         nx, ny, nz = self.get_shape(boundary)
 
-        if self.fdir == "xyz":
-            self.fshape = (nz, ny, nx)
+        if fdir == "xyz":
+            fshape = (nz, ny, nx)
         else:
             if not self.unify:
-                if self.fdir == "-":
-                    self.fshape = (1,)
-                elif self.fdir == "x":
-                    self.fshape = (nx,)
-                elif self.fdir == "y":
-                    self.fshape = (ny,)
-                elif self.fdir == "z":
-                    self.fshape = (nz,)
-                elif self.fdir == "xy":
-                    self.fshape = (ny, nx)
-                elif self.fdir == "xz":
-                    self.fshape = (nz, nx)
-                elif self.fdir == "yz":
-                    self.fshape = (nz, ny)
+                if fdir == "-":
+                    fshape = (1,)
+                elif fdir == "x":
+                    fshape = (nx,)
+                elif fdir == "y":
+                    fshape = (ny,)
+                elif fdir == "z":
+                    fshape = (nz,)
+                elif fdir == "xy":
+                    fshape = (ny, nx)
+                elif fdir == "xz":
+                    fshape = (nz, nx)
+                elif fdir == "yz":
+                    fshape = (nz, ny)
                 else:
                     raise ValueError("unknown fdir value.")
             else:
-                if self.fdir == "-":
-                    self.fshape = (1, 1, 1)
-                elif self.fdir == "x":
-                    self.fshape = (1, 1, nx)
-                elif self.fdir == "y":
-                    self.fshape = (1, ny, 1)
-                elif self.fdir == "z":
-                    self.fshape = (nz, 1, 1)
-                elif self.fdir == "xy":
-                    self.fshape = (1, ny, nx)
-                elif self.fdir == "xz":
-                    self.fshape = (nz, 1, nx)
-                elif self.fdir == "yz":
-                    self.fshape = (nz, ny, 1)
+                if fdir == "-":
+                    fshape = (1, 1, 1)
+                elif fdir == "x":
+                    fshape = (1, 1, nx)
+                elif fdir == "y":
+                    fshape = (1, ny, 1)
+                elif fdir == "z":
+                    fshape = (nz, 1, 1)
+                elif fdir == "xy":
+                    fshape = (1, ny, nx)
+                elif fdir == "xz":
+                    fshape = (nz, 1, nx)
+                elif fdir == "yz":
+                    fshape = (nz, ny, 1)
                 else:
                     raise ValueError("unknown fdir value.")
 
         if points:
-            self.fshape = self.fshape + (3,)
+            fshape = fshape + (3,)
 
         if self.verbose:
             s1 = utils.helpers.get_boundary_str(boundary)
             s2 = utils.helpers.get_points_str(points)
-            print(f"[info] fshape {s1}{s2} is {self.fshape}.")
+            print(f"[info] fshape {s1}{s2} is {fshape}.")
 
-        return self.fshape
+        self.fshape = fshape
+
+        return fshape
 
     @_lru_cache(maxsize=4)
     def get_order(
@@ -402,7 +411,7 @@ class RegularCartesian(Grid):
             gird order as array.
         """
         if type == "natural":
-            self.order = np.arange(self.get_n(True))
+            order = np.arange(self.get_n(True))
         else:
             raise ValueError(
                 "Order type is not supported or unknown. "
@@ -410,17 +419,19 @@ class RegularCartesian(Grid):
             )
 
         if not boundary:
-            self.order = self.remove_boundaries(self.order, False, "both")
+            order = self.remove_boundaries(order, False, "both")
 
         if fshape:
             shape = self.get_fshape(boundary, False)
-            self.order = self.order.reshape(shape)
+            order = order.reshape(shape)
 
         if self.verbose:
             s1, s2 = utils.helpers.get_verbose_str(boundary, fshape)
             print(f"[info] order was computed ({s1} - {s2}).")
 
-        return self.order
+        self.order = order
+
+        return order
 
     @_lru_cache(maxsize=1)
     def get_ones(
@@ -455,14 +466,16 @@ class RegularCartesian(Grid):
             shape = self.get_n(boundary)
 
         if not sparse:
-            self.ones = np.ones(shape, dtype=self.dtype)
+            ones = np.ones(shape, dtype=self.dtype)
         else:
-            self.ones = ss.lil_matrix(shape, dtype=self.dtype)
+            ones = ss.lil_matrix(shape, dtype=self.dtype)
 
         if self.verbose:
             print(f"[info] ones array was computed.")
 
-        return self.ones
+        self.ones = ones
+
+        return ones
 
     @_lru_cache(maxsize=1)
     def get_zeros(
@@ -497,14 +510,16 @@ class RegularCartesian(Grid):
             shape = self.get_n(boundary)
 
         if not sparse:
-            self.zeros = np.zeros(shape, dtype=self.dtype)
+            zeros = np.zeros(shape, dtype=self.dtype)
         else:
-            self.zeros = ss.lil_matrix(shape, dtype=self.dtype) * 0
+            zeros = ss.lil_matrix(shape, dtype=self.dtype) * 0
 
         if self.verbose:
             print(f"[info] zeros array was computed.")
 
-        return self.zeros
+        self.zeros = zeros
+
+        return zeros
 
     # -------------------------------------------------------------------------
     # Cells id and coordinates:
@@ -540,19 +555,21 @@ class RegularCartesian(Grid):
             total number of cells.
         """
         n = self.get_n(boundary)
-        self.cells_i = np.arange(n)
+        cells_i = np.arange(n)
 
         if fshape:
             shape = self.get_fshape(boundary, False)
-            self.cells_i = self.cells_i.reshape(shape)
+            cells_i = cells_i.reshape(shape)
         else:
-            self.cells_i = utils.helpers.reformat(self.cells_i, fmt)
+            cells_i = utils.helpers.reformat(cells_i, fmt)
 
         if self.verbose:
             s = utils.helpers.get_boundary_str(boundary)
-            print(f"[info] cells_i {s} for {self.n} was computed.")
+            print(f"[info] cells_i {s} for {n} was computed.")
+
+        self.cells_i = cells_i
 
-        return self.cells_i
+        return cells_i
 
     @_lru_cache(maxsize=None)
     def get_cell_id(
-- 
2.43.0


From 94aa2e5def15708c665af48f07ec81aae49aad6e Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:44:36 +0000
Subject: [PATCH 03/26] fix: cached queries hand out copies instead of the
 cached object

A caller that modified an answer in place changed every later answer and
the simulations built on the grid.
---
 reservoirflow/utils/helpers.py | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/reservoirflow/utils/helpers.py b/reservoirflow/utils/helpers.py
index c98a457..c8133db 100644
--- a/reservoirflow/utils/helpers.py
+++ b/reservoirflow/utils/helpers.py
@@ -6,19 +6,34 @@ This module is used to provide helper functions.
 """
 
 import warnings
-from functools import lru_cache
+from functools import lru_cache, wraps
 
 import numpy as np
+import scipy.sparse as ss
+
+
+def _own(value):
+    """Return an answer the caller may modify without harming the cache."""
+    if isinstance(value, np.ndarray) or ss.issparse(value):
+        return value.copy()
+    elif type(value) in (list, tuple, set):
+        return type(value)(_own(v) for v in value)
+    elif type(value) is dict:
+        return {k: _own(v) for k, v in value.items()}
+    return value
 
 
 def _lru_cache(maxsize=None):
     def wrapper_cache(func):
         _func = lru_cache(maxsize=maxsize)(func)
-        return _func
-        # @wraps(func)
-        # def wrapped_func(*args, **kwargs):
-        #     return func(*args, **kwargs)
-        # return wrapped_func
+
+        @wraps(func)
+        def wrapped_func(*args, **kwargs):
+            return _own(_func(*args, **kwargs))
+
+        wrapped_func.cache_clear = _func.cache_clear
+        wrapped_func.cache_info = _func.cache_info
+        return wrapped_func
 
     return wrapper_cache
 
-- 
2.43.0


From dab76dd36e58a870a065e6992b3282a597f5de2f Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:45:22 +0000
Subject: [PATCH 04/26] fix: transmissibility queries follow changed rock
 properties

get_cell_k, get_cell_G and the homogeneity flags kept answering with the
values computed before set_props().
---
 reservoirflow/grids/regular_cartesian.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/reservoirflow/grids/regular_cartesian.py b/reservoirflow/grids/regular_cartesian.py
index ceb0382..916e95d 100644
--- a/reservoirflow/grids/regular_cartesian.py
+++ b/reservoirflow/grids/regular_cartesian.py
@@ -2442,6 +2442,10 @@ class RegularCartesian(Grid):
             )
             raise ValueError(msg)
 
+        # answers computed from the previous properties are not valid:
+        RegularCartesian.get_cell_k.cache_clear()
+        RegularCartesian.get_cell_G.cache_clear()
+
         if self.verbose:
             print(f"[info] {name} is {value} for {s}.")
 
@@ -2676,7 +2680,6 @@ class RegularCartesian(Grid):
         return self.get_cell_k("z", id, coords)
 
     @property
-    @_lru_cache(maxsize=1)
     def is_homogeneous(self):
         """Returns homogeneity as bool.
 
@@ -2697,7 +2700,6 @@ class RegularCartesian(Grid):
         return True
 
     @property
-    @_lru_cache(maxsize=1)
     def is_heterogeneous(self):
         """Returns heterogeneity as bool.
 
@@ -2712,7 +2714,6 @@ class RegularCartesian(Grid):
         return not self.is_homogeneous
 
     @property
-    @_lru_cache(maxsize=1)
     def is_isotropic(self):
         """Returns isotropic as bool.
 
@@ -2736,7 +2737,6 @@ class RegularCartesian(Grid):
         return True
 
     @property
-    @_lru_cache(maxsize=1)
     def is_anisotropic(self):
         """Returns anisotropic as bool.
 
-- 
2.43.0


From 2a56de69dab93086f70dcf3d94d73285ddb4f3ee Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:47:24 +0000
Subject: [PATCH 05/26] fix: refused or per-cell properties leave the grid
 consistent

A set_props() or set_comp() call that raised kept the part applied before the
error, and a property of a single cell could not be set in 2D/3D grids.
---
 reservoirflow/fluids/fluid.py            |  8 +--
 reservoirflow/grids/grid.py              |  8 +--
 reservoirflow/grids/regular_cartesian.py | 65 ++++++++++++++----------
 reservoirflow/models/model.py            |  8 +--
 4 files changed, 50 insertions(+), 39 deletions(-)

diff --git a/reservoirflow/fluids/fluid.py b/reservoirflow/fluids/fluid.py
index b740c29..55a02eb 100644
--- a/reservoirflow/fluids/fluid.py
+++ b/reservoirflow/fluids/fluid.py
@@ -54,14 +54,14 @@ class Fluid(ABC, Base):
         ValueError
             Compressibility smaller than zero is not allowed.
         """
-        self.comp = comp
         if comp == 0:
-            self.comp_type = "incompressible"
+            comp_type = "incompressible"
         elif comp > 0:
-            self.comp_type = "compressible"
+            comp_type = "compressible"
         else:
-            self.comp_type = None
             raise ValueError("Compressibility smaller than zero is not allowed.")
+        self.comp = comp
+        self.comp_type = comp_type
 
     # -------------------------------------------------------------------------
     # Synonyms:
diff --git a/reservoirflow/grids/grid.py b/reservoirflow/grids/grid.py
index c81ec02..43d39ce 100644
--- a/reservoirflow/grids/grid.py
+++ b/reservoirflow/grids/grid.py
@@ -80,14 +80,14 @@ class Grid(ABC, Base):
         ValueError
             Compressibility smaller than zero is not allowed.
         """
-        self.comp = comp
         if comp == 0:
-            self.comp_type = "incompressible"
+            comp_type = "incompressible"
         elif comp > 0:
-            self.comp_type = "compressible"
+            comp_type = "compressible"
         else:
-            self.comp_type = None
             raise ValueError("Compressibility smaller than zero is not allowed.")
+        self.comp = comp
+        self.comp_type = comp_type
 
     # -------------------------------------------------------------------------
     # Synonyms:
diff --git a/reservoirflow/grids/regular_cartesian.py b/reservoirflow/grids/regular_cartesian.py
index 916e95d..6b9eb91 100644
--- a/reservoirflow/grids/regular_cartesian.py
+++ b/reservoirflow/grids/regular_cartesian.py
@@ -2332,29 +2332,43 @@ class RegularCartesian(Grid):
         # ToDo
         # ----
         # - allow iterables for id and coords.
-        if kx is not None:
-            self.set_prop("kx", kx, id, coords)
-            self.kx = self.k["x"] = self.__props__["kx"]
-        if ky is not None:
-            self.set_prop("ky", ky, id, coords)
-            self.ky = self.k["y"] = self.__props__["ky"]
-        if kz is not None:
-            self.set_prop("kz", kz, id, coords)
-            self.kz = self.k["z"] = self.__props__["kz"]
-        if phi is not None:
-            self.set_prop("phi", phi, id, coords)
-            self.phi = self.__props__["phi"]
-        if z is not None:
-            self.set_prop("z", z, id, coords)
-            self.z = self.__props__["z"]
-        if comp is not None:
-            self.set_comp(comp)
+        backup = {n: p if p is None else p.copy() for n, p in self.__props__.items()}
+        try:
+            if kx is not None:
+                self.set_prop("kx", kx, id, coords)
+            if ky is not None:
+                self.set_prop("ky", ky, id, coords)
+            if kz is not None:
+                self.set_prop("kz", kz, id, coords)
+            if phi is not None:
+                self.set_prop("phi", phi, id, coords)
+            if z is not None:
+                self.set_prop("z", z, id, coords)
+            if comp is not None:
+                self.set_comp(comp)
+        except BaseException:
+            # a refused property leaves all properties as they were:
+            self.__props__ = backup
+            self.__link_props()
+            raise
         if self.__props__["z"] is None:
             self.set_prop("z", 0)
-            self.z = self.__props__["z"]
         if not hasattr(self, "comp"):
             self.set_comp(0)
 
+    def __link_props(self):
+        """Link properties' attributes with the current properties."""
+        for dir in ["x", "y", "z"]:
+            if self.__props__["k" + dir] is not None:
+                self.k[dir] = self.__props__["k" + dir]
+                setattr(self, "k" + dir, self.k[dir])
+        for name in ["phi", "z"]:
+            if self.__props__[name] is not None:
+                setattr(self, name, self.__props__[name])
+        # answers computed from the previous properties are not valid:
+        RegularCartesian.get_cell_k.cache_clear()
+        RegularCartesian.get_cell_G.cache_clear()
+
     def set_cell_value(
         self,
         array,
@@ -2429,12 +2443,11 @@ class RegularCartesian(Grid):
                 self.__props__[name] = self.get_ones(True, False, False) * value
                 s = "all cells"
             else:
-                if id is not None:
-                    coords = self.get_cell_coords(id, True)
-                if coords is not None:
-                    icoords = self.get_cell_icoords(coords)
-                    self.__props__[name][icoords] = value
-                    s = "cell coords " + str(coords)
+                # properties are flat arrays in natural order:
+                if id is None:
+                    id = self.get_cell_id(coords, True)
+                self.__props__[name][id] = value
+                s = "cell id " + str(id)
         else:
             msg = (
                 f"Property {name} is unknown or not defined. "
@@ -2442,9 +2455,7 @@ class RegularCartesian(Grid):
             )
             raise ValueError(msg)
 
-        # answers computed from the previous properties are not valid:
-        RegularCartesian.get_cell_k.cache_clear()
-        RegularCartesian.get_cell_G.cache_clear()
+        self.__link_props()
 
         if self.verbose:
             print(f"[info] {name} is {value} for {s}.")
diff --git a/reservoirflow/models/model.py b/reservoirflow/models/model.py
index 6552f7e..638a21c 100644
--- a/reservoirflow/models/model.py
+++ b/reservoirflow/models/model.py
@@ -65,14 +65,14 @@ class Model(ABC, Base):
         ValueError
             Compressibility smaller than zero is not allowed.
         """
-        self.comp = comp
         if comp == 0:
-            self.comp_type = "incompressible"
+            comp_type = "incompressible"
         elif comp > 0:
-            self.comp_type = "compressible"
+            comp_type = "compressible"
         else:
-            self.comp_type = None
             raise ValueError("Compressibility smaller than zero is not allowed.")
+        self.comp = comp
+        self.comp_type = comp_type
 
     def compile(
         self,
-- 
2.43.0


From ab0eb70adf212703991e0581c3e1ff504d9ad9ac Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:47:35 +0000
Subject: [PATCH 06/26] fix: initial arrays of a model are its own

They were views of arrays cached by the grid, so boundary rates of one model
showed up in every other model of the same size.
---
 reservoirflow/models/black_oil.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index c7e002a..96f3bb1 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -194,9 +194,9 @@ class BlackOil(Model):
         return (self.solution.nsteps, self.grid.get_n(boundary))
 
     def __get_arrays(self) -> tuple:
-        ones = self.grid.get_ones(True, False, False)[np.newaxis]
-        pressures = ones * np.nan
-        rates = self.grid.get_zeros(True, False, False)[np.newaxis]
+        shape = (1, self.grid.get_n(True))
+        pressures = np.full(shape, np.nan, dtype=self.dtype)
+        rates = np.zeros(shape, dtype=self.dtype)
         return pressures, rates
 
     def get_init_arrays(self) -> tuple:
-- 
2.43.0


From 40a3cfcefd75fc816196ecdae838e189b40f7911 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:47:35 +0000
Subject: [PATCH 07/26] fix: errors of the threads filling the matrices reach
 the caller

The results of executor.map() were never consumed, a failing worker left its
row empty or at its previous value and the step was solved anyway.
---
 reservoirflow/solutions/numerical/fdm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index 8d3a161..2929650 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -321,7 +321,7 @@ class FDM(Solution):
     def get_cells_eq(self, threading=False):
         """Return flow equations for all internal cells."""
         cells_eq = {}
-        n_threads = self.model.n // 2
+        n_threads = max(1, self.model.n // 2)
         if threading:
             from concurrent.futures import ThreadPoolExecutor
 
@@ -411,7 +411,8 @@ class FDM(Solution):
             with ThreadPoolExecutor(self.model.n) as executor:
                 # from concurrent.futures import ProcessPoolExecutor
                 # with ProcessPoolExecutor(2) as executor:
-                executor.map(self.__update_matrices_symb, self.model.cells_id)
+                # results are consumed to raise errors of the workers:
+                list(executor.map(self.__update_matrices_symb, self.model.cells_id))
         else:
             for cell_id in self.model.cells_id:
                 self.__update_matrices_symb(cell_id)
-- 
2.43.0


From 0a07a3cf9f9ab4a989d53b089652201b62af06e0 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:53:27 +0000
Subject: [PATCH 08/26] fix: boundaries and wells follow the model settings in
 every solution

- matrices start from the constant transmissibility part at every step, so
  changed boundaries, added wells and wells which leave pwf control are seen
  (vectorized and symbolic; a gradient is a rate in both of them).
- wells switch between q and pwf in both directions, several at once, and
  with the solver that was asked for; a step is recorded once.
- constrain and pressures of wells belong to a solution, wells may be added
  at any step, and objects of the caller are neither kept nor modified.
- set_well(), set_boundary() and set_boundaries() change the model only if
  all values are valid; set_boundary() is not ignored.
---
 reservoirflow/models/black_oil.py        | 209 ++++++++-------
 reservoirflow/solutions/numerical/fdm.py | 325 ++++++++++-------------
 reservoirflow/solutions/solution.py      |  15 ++
 3 files changed, 256 insertions(+), 293 deletions(-)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index 96f3bb1..843002f 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -4,7 +4,6 @@ BlackOil
 """
 
 import warnings
-from collections import defaultdict
 from datetime import date
 
 import matplotlib.pyplot as plt
@@ -90,6 +89,7 @@ class BlackOil(Model):
         assert self.dtype == fluid.dtype, "fluid dtype is not compatible."
 
         self.cells_terms = {}
+        self.bdict = {}
         # newtest:
         self.dt = dt
         # self.nsteps = 1
@@ -99,8 +99,6 @@ class BlackOil(Model):
         self.__initialize__(pi, start_date, well)
         self.__calc_comp()
         self.__calc_RHS()
-        self.bdict = {}
-        self.bdict_update = []
 
     # -------------------------------------------------------------------------
     # Basic:
@@ -158,7 +156,6 @@ class BlackOil(Model):
             self.start_date = start_date
 
         self.wells = {}
-        self.w_pressures = defaultdict(list)
         if well is not None:
             self.set_well(well)
 
@@ -209,6 +206,14 @@ class BlackOil(Model):
         """
         return self.init_pressures.copy(), self.init_rates.copy()
 
+    @property
+    def w_pressures(self) -> dict:
+        """Well pressures of the assigned solution."""
+        if self.solution is None:
+            return {id: [self.init_pressures[0, id]] for id in self.wells}
+        self.solution.sync_wells()
+        return self.solution.w_pressures
+
     def __get_tstep(self):
         if self.solution is None:
             return 0
@@ -225,16 +230,6 @@ class BlackOil(Model):
             else:
                 return self.solution.pressures[tstep, cell_id]
 
-    def __set_pressure(self, tstep, cell_id, value):
-        if tstep == 0:
-            self.init_pressures[tstep, cell_id] = value
-        else:
-            assert self.solution is not None, "Model was not compiled."
-            if tstep is None:
-                self.solution.pressures[:, cell_id] = value
-            else:
-                self.solution.pressures[tstep, cell_id] = value
-
     def __get_rate(self, tstep, cell_id):
         if tstep == 0:
             return self.init_rates[tstep, cell_id]
@@ -245,16 +240,6 @@ class BlackOil(Model):
             else:
                 return self.solution.rates[tstep, cell_id]
 
-    def __set_rate(self, tstep, cell_id, value):
-        if tstep == 0:
-            self.init_rates[tstep, cell_id] = value
-        else:
-            assert self.solution is not None, "Model was not compiled."
-            if tstep is None:
-                self.solution.rates[:, cell_id] = value
-            else:
-                self.solution.rates[tstep, cell_id] = value
-
     def __calc_comp(self):
         """Calculates total compressibility."""
         if self.fluid.comp_type == self.grid.comp_type == "incompressible":
@@ -359,13 +344,15 @@ class BlackOil(Model):
     # Wells:
     # -------------------------------------------------------------------------
 
-    def __calc_well_G(self, cell_id=None):
+    def __calc_well_G(self, cell_id, well):
         """Calculates well Geometry factor (G).
 
         Parameters
         ----------
         id : int, optional
             cell id based on natural order as int.
+        well : dict
+            well properties.
 
         Returns
         -------
@@ -394,10 +381,10 @@ class BlackOil(Model):
             * self.grid.d["z"][cell_id]
         )
 
-        G_d = np.log(self.wells[cell_id]["r_eq"] / self.wells[cell_id]["r"] * 12)
+        G_d = np.log(well["r_eq"] / well["r"] * 12)
 
-        if "s" in self.wells[cell_id].keys():
-            G_d += self.wells[cell_id]["s"]
+        if "s" in well.keys():
+            G_d += well["s"]
 
         return G_n / G_d
 
@@ -480,48 +467,34 @@ class BlackOil(Model):
         if well is not None:
             if cell_id is None:
                 cell_id = well.cell_id
-            assert (
-                cell_id in self.grid.cells_id
-            ), "a well must be placed within the reservoir"
-            self.wells[cell_id] = vars(well)
+            props = vars(well).copy()
+            q, pwf, r, s = [props.pop(k, None) for k in ["q", "pwf", "r", "s"]]
         else:
             assert cell_id is not None, "id must be defined"
-            assert (
-                cell_id in self.grid.cells_id
-            ), "a well must be placed within the reservoir"
-            if cell_id not in self.wells:
-                self.wells[cell_id] = {}
-            if q is not None:
-                self.wells[cell_id]["q"] = q
-                self.wells[cell_id]["q_sp"] = q
-                self.wells[cell_id]["constrain"] = "q"
-            if pwf is not None:
-                self.wells[cell_id]["pwf"] = pwf
-                self.wells[cell_id]["pwf_sp"] = pwf
-                if "q" not in self.wells[cell_id].keys():
-                    self.wells[cell_id]["constrain"] = "pwf"
-                # newtest
-                # self.w_pressures[cell_id].append(self.pressures[self.get_tstep(), cell_id])
-                self.w_pressures[cell_id].append(
-                    self.__get_pressure(self.__get_tstep(), cell_id)
-                )
-            if "constrain" not in self.wells[cell_id].keys():
-                self.wells[cell_id]["constrain"] = None
-            if r is not None:
-                self.wells[cell_id]["r"] = r
-            if s is not None:
-                self.wells[cell_id]["s"] = s
-
-        self.wells[cell_id]["r_eq"] = self.__calc_well_r_eq(cell_id)
-        self.wells[cell_id]["G"] = self.__calc_well_G(cell_id)
-        if "pwf" not in self.wells[cell_id].keys():
-            self.wells[cell_id]["pwf"] = 0
-            self.wells[cell_id]["pwf_sp"] = 0
-            # newtest
-            # self.w_pressures[cell_id].append(self.pressures[self.get_tstep(), cell_id])
-            self.w_pressures[cell_id].append(
-                self.__get_pressure(self.__get_tstep(), cell_id)
-            )
+            props = self.wells.get(cell_id, {}).copy()
+        assert (
+            cell_id in self.grid.cells_id
+        ), "a well must be placed within the reservoir"
+
+        if q is not None:
+            props["q"] = props["q_sp"] = q
+        if pwf is not None:
+            props["pwf"] = props["pwf_sp"] = pwf
+        elif "pwf_sp" not in props:
+            props["pwf"] = props["pwf_sp"] = 0
+        if r is not None:
+            props["r"] = r
+        if s is not None:
+            props["s"] = s
+        props["constrain"] = "q" if "q_sp" in props else "pwf"
+        props["r_eq"] = self.__calc_well_r_eq(cell_id)
+        props["G"] = self.__calc_well_G(cell_id, props)
+
+        # the well is changed only if all properties are valid:
+        self.wells[cell_id] = props
+        for solution in self.solutions.values():
+            solution.w_constrain.pop(cell_id, None)
+            solution.sync_wells()
 
         if self.verbose:
             print(f"[info] a well in cell {cell_id} was set.")
@@ -547,33 +520,68 @@ class BlackOil(Model):
             constant value to specify the condition in cond argument.
 
         """
-        # ToDo
-        # ----
-        # - d is taken at x direction for gradient.
-        cond = cond.lower()
-        if cond in ["rate", "q"]:
-            # newtest
-            # self.rates[self.get_tstep(), cell_b_id] = v
-            self.__set_rate(self.__get_tstep(), cell_b_id, v)
-        elif cond in ["pressure", "press", "p"]:
-            # newtest
-            # self.pressures[self.get_tstep(), cell_b_id] = v
-            self.__set_pressure(self.__get_tstep(), cell_b_id, v)
-        elif cond in ["gradient", "grad", "g"]:
-            ((cell_id, T),) = self.get_cell_trans(cell_b_id, None, False).items()
-            cell_n = self.grid.get_cell_neighbors(cell_b_id, None, False, "dict")
-            dir = [dir for dir in cell_n if cell_id in cell_n[dir]][0]
-            # newtest
-            # self.rates[self.get_tstep(), cell_b_id] = T * self.grid.d[dir][cell_id] * v
-            self.__set_rate(
-                self.__get_tstep(), cell_b_id, T * self.grid.d[dir][cell_id] * v
-            )
-        else:
-            raise ValueError(f"cond argument {cond} is unknown.")
+        bdict = {**self.bdict, cell_b_id: self.__read_boundary(cell_b_id, cond, v)}
+        self.__set_bdict(bdict)
 
         if self.verbose:
             print(f"[info] boundary in cell {cell_b_id} was set to constant {cond}.")
 
+    def __read_boundary(self, cell_b_id, cond, v):
+        """Check a boundary condition.
+
+        Returns
+        -------
+        tuple
+            boundary condition as (cond, v) where cond is in
+            ['rate', 'pressure', 'gradient'].
+        """
+        boundaries = self.grid.get_boundaries("id", "set")
+        assert cell_b_id in boundaries, f"cell {cell_b_id} is not a boundary cell."
+        names = {
+            "rate": ["rate", "q"],
+            "pressure": ["pressure", "press", "p"],
+            "gradient": ["gradient", "grad", "g"],
+        }
+        for name in names:
+            if cond.lower() in names[name]:
+                return name, float(v)
+        raise ValueError(f"cond argument {cond} is unknown.")
+
+    def get_boundary_rate(self, cell_b_id: int):
+        """Returns the specified flow rate through a boundary cell.
+
+        Parameters
+        ----------
+        cell_b_id : int
+            boundary cell id with "rate" or "gradient" condition.
+        """
+        return self.__calc_boundary_rate(cell_b_id, *self.bdict[cell_b_id])
+
+    def __calc_boundary_rate(self, cell_b_id, cond, v):
+        if cond == "gradient":
+            # cells at edges and corners are not connected:
+            for cell_id, T in self.get_cell_trans(cell_b_id, None, False).items():
+                cell_n = self.grid.get_cell_neighbors(cell_b_id, None, False, "dict")
+                dir = [dir for dir in cell_n if cell_id in cell_n[dir]][0]
+                return T * self.grid.d[dir][cell_id] * v
+            return 0.0
+        return v
+
+    def __set_bdict(self, bdict):
+        pressures, rates = self.__get_arrays()
+        pressures[0, self.grid.cells_id] = self.init_pressures[0, self.grid.cells_id]
+        for id_b, (cond, v) in bdict.items():
+            if cond == "pressure":
+                pressures[0, id_b] = v
+            else:
+                rates[0, id_b] = self.__calc_boundary_rate(id_b, cond, v)
+        self.bdict = bdict
+        self.cells_terms = {}  # include boundary terms
+        self.init_pressures, self.init_rates = pressures, rates
+        for solution in self.solutions.values():
+            if solution.tstep == 0:
+                solution.pressures, solution.rates = self.get_init_arrays()
+
     def set_boundaries(self, bdict: dict):
         """Set boundary conditions using a dictionary.
 
@@ -584,16 +592,12 @@ class BlackOil(Model):
             id and values are a tuple of cond and value (e.g.
             {0: ("pressure", 4000), 1: ("rate", 0)})
         """
-        self.bdict = bdict
-        boundaries = self.grid.get_boundaries("id", "set")
-        for cell_id in bdict:
-            assert cell_id in boundaries, f"cell {cell_id} is not a boundary cell."
-            cond, v = bdict[cell_id]
-            self.set_boundary(cell_id, cond, v)
-
-        self.bdict_update = [
-            id_b for id_b in self.bdict.keys() if self.bdict[id_b][0] == "pressure"
-        ]
+        self.__set_bdict(
+            {
+                cell_id: self.__read_boundary(cell_id, cond, v)
+                for cell_id, (cond, v) in bdict.items()
+            }
+        )
 
     def set_all_boundaries(self, cond, v):
         """Set the same boundary condition in all boundaries.
@@ -610,8 +614,7 @@ class BlackOil(Model):
             constant value to specify the condition in cond argument.
         """
         boundaries = self.grid.get_boundaries("id", "tuple")
-        for cell_id in boundaries:
-            self.set_boundary(cell_id, cond, v)
+        self.set_boundaries({cell_id: (cond, v) for cell_id in boundaries})
 
     # -------------------------------------------------------------------------
     # Flow Equations:
diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index 2929650..9add46c 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -7,7 +7,6 @@ Finite Difference Method (FDM) class.
 
 import time
 import warnings
-from collections import defaultdict
 
 
 import numpy as np
@@ -91,7 +90,6 @@ class FDM(Solution):
         dz = self.model.grid.z[cell_n_id] - self.model.grid.z[cell_id]
         return trans * ((cell_n_p - cell_p) - (self.model.fluid.g * dz))
 
-    @_lru_cache(maxsize=None)
     def __calc_b_term(
         self,
         cell_id,
@@ -133,11 +131,11 @@ class FDM(Solution):
         # implementation 2:
         if cell_b_id in self.model.bdict:
             cond, v = self.model.bdict[cell_b_id]
-            if cond.lower() in ["pressure", "press", "p"]:
+            if cond == "pressure":
                 dz = self.model.grid.z[cell_b_id] - self.model.grid.z[cell_id]
                 return trans * 2 * ((v - cell_p) - (self.model.fluid.g * dz))
-            else:  # elif cond in ["rate", "q", "gradient", "grad", "g"]:
-                return v
+            else:  # elif cond in ["rate", "gradient"]:
+                return self.model.get_boundary_rate(cell_b_id)
         else:
             return 0.0
 
@@ -163,18 +161,19 @@ class FDM(Solution):
         float
             well flow term (w_term).
         """
-        if (
-            "q" in self.model.wells[cell_id]
-            and self.model.wells[cell_id]["constrain"] == "q"
-        ):
-            return self.model.wells[cell_id]["q"]
+        if self.get_constrain(cell_id) == "q":
+            return self.model.wells[cell_id]["q_sp"]
         else:
-            return (
-                -self.model.wells[cell_id]["G"]
-                / (self.model.fluid.B * self.model.fluid.mu)
-                * (cell_p - self.model.wells[cell_id]["pwf"])
+            return -self.__calc_well_J(cell_id) * (
+                cell_p - self.model.wells[cell_id]["pwf_sp"]
             )
 
+    def __calc_well_J(self, cell_id) -> float:
+        """Calculates well productivity (flow rate per pressure unit)."""
+        return self.model.wells[cell_id]["G"] / (
+            self.model.fluid.B * self.model.fluid.mu
+        )
+
     def __calc_a_term(
         self,
         cell_id,
@@ -262,8 +261,8 @@ class FDM(Solution):
                 id=cell_id, boundary=False, fmt="array"
             )
             boundaries = self.model.grid.get_cell_boundaries(id=cell_id, fmt="array")
-            # f_terms: flow terms, a_terms: accumulation terms
-            terms = {"f_terms": [], "a_term": 0}
+            # f_terms: flow terms (neighbors and boundaries)
+            terms = {"f_terms": []}
             T = self.model.get_cell_trans(cell_id, None, True)
             if self.model.verbose:
                 print(f"[info] cell id: {cell_id}")
@@ -282,34 +281,26 @@ class FDM(Solution):
                 if self.model.verbose:
                     print(f"[info] Boundary terms: {b_term}")
 
-            if cell_id in self.model.wells.keys():
-                w_term = self.__calc_w_term(cell_id, cell_p)
-                terms["f_terms"].append(w_term)
-                if self.model.verbose:
-                    print(f"[info] Well terms: {w_term}")
-
-            terms["a_term"] = self.__calc_a_term(cell_id, cell_p)
-            if self.model.verbose:
-                print("[info] Accumulation term:", terms["a_term"])
-
             self.model.cells_terms[cell_id] = terms
             if self.model.verbose:
                 print("[info] terms:", terms)
 
         else:
             terms = self.model.cells_terms[cell_id]
-            if (
-                cell_id in self.model.wells.keys()
-                and self.model.wells[cell_id]["constrain"] == "pwf"
-            ):
-                w_term = self.__calc_w_term(cell_id, cell_p)
-                if self.model.verbose:
-                    print(f"[info] Well terms (updated): {w_term}")
-                terms["f_terms"][-1] = w_term
-            if self.model.comp_type == "compressible":
-                terms["a_term"] = self.__calc_a_term(cell_id, cell_p)
 
-        cell_eq = sym.Eq(sum(terms["f_terms"]), terms["a_term"])
+        # well and accumulation terms may change every time step:
+        f_terms = list(terms["f_terms"])
+        if cell_id in self.model.wells.keys():
+            w_term = self.__calc_w_term(cell_id, cell_p)
+            f_terms.append(w_term)
+            if self.model.verbose:
+                print(f"[info] Well terms: {w_term}")
+
+        a_term = self.__calc_a_term(cell_id, cell_p)
+        if self.model.verbose:
+            print("[info] Accumulation term:", a_term)
+
+        cell_eq = sym.Eq(sum(f_terms), a_term)
         cell_eq = self.__simplify_eq(cell_eq)
         cell_eq_lhs = cell_eq.lhs.as_coefficients_dict()
 
@@ -452,14 +443,15 @@ class FDM(Solution):
 
         # return self.A_
         # self.A_ = self.get_cells_T_array(False, True).toarray()
-        self.A_ = self.model.get_cells_trans(False, self.sparse, True)
-        v1 = -self.A_[self.model.cells_i, :].sum(axis=1).flatten()
+        A_ = self.model.get_cells_trans(False, self.sparse, True)
+        v1 = -A_[self.model.cells_i, :].sum(axis=1).flatten()
         v2 = self.model.RHS[self.model.cells_id].flatten()
         v3 = v1 - v2
-        self.A_[self.model.cells_i, self.model.cells_i] = v3
+        A_[self.model.cells_i, self.model.cells_i] = v3
         if self.sparse:
-            self.A_ = ss.lil_matrix(self.A_, dtype=self.model.dtype)
-        return self.A_
+            A_ = ss.lil_matrix(A_, dtype=self.model.dtype)
+        self.A_init = A_
+        return self.A_init
 
     def __init_d(self):
         """Initialize constant vector (`d`).
@@ -535,58 +527,26 @@ class FDM(Solution):
             _description_
         """
         update_z = False
-        if self.tstep == 0 or not hasattr(self, "A_"):
-            # second condition allow switching vectorize True/False after
-            # timestep=0.
-            self.resolve = defaultdict(lambda: False)
+        if not hasattr(self, "A_init"):
             self.__init_A()
-            self.bdict_v = {}
-            for id_b in self.model.bdict_update:
-                ((id, T),) = self.model.get_cell_trans(id_b, None, False).items()
-                p = eval(f"sym.Symbol('p{id}')")
-                b_term = self.__calc_b_term(id, id_b, p, T)
-                v0, v1 = b_term.as_coefficients_dict().values()
-                self.bdict_v[id_b] = (v0, v1, id)
-                self.A_[self.model.cells_i_dict[id], self.model.cells_i_dict[id]] += v1
-                # self.A_[self.model.cells_i_dict[id], self.model.cells_i_dict[id]] -= T * 2
-
+        # boundaries and wells may change every time step:
+        self.A_ = self.A_init.copy()
         self.__init_d()
 
         for id in self.model.wells.keys():
-            if self.model.wells[id]["constrain"] == "q":
-                w_term = self.__calc_w_term(id, self.pressures[self.tstep, id])
-                self.d_[self.model.cells_i_dict[id], 0] -= w_term
+            i = self.model.cells_i_dict[id]
+            self.d_[i, 0] -= self.__calc_w_term(id, 0.0)
+            if self.get_constrain(id) == "q":
                 update_z = True
-            elif self.model.wells[id]["constrain"] == "pwf":
-                p = eval(f"sym.Symbol('p{id}')")
-                w_term = self.__calc_w_term(id, p)
-                v = w_term.as_coefficients_dict().values()
-                if len(v) == 1:
-                    ((v0),) = v
-                    v1 = 0
-                elif len(v) == 2:
-                    v0, v1 = v
-                else:
-                    raise ValueError("unknown length")
-                self.d_[self.model.cells_i_dict[id], 0] -= v0
-                if not self.resolve[id]:
-                    self.A_[
-                        self.model.cells_i_dict[id], self.model.cells_i_dict[id]
-                    ] += v1
-                    self.resolve[id] = True
-            else:
-                pass  # no constrain
+            else:  # elif constrain == "pwf":
+                self.A_[i, i] -= self.__calc_well_J(id)
 
         for id_b in self.model.bdict.keys():
-            id = self.model.grid.get_cell_neighbors(id_b, None, False, "list")
-            if len(id) > 0:
-                id = id[0]
+            for id, T in self.model.get_cell_trans(id_b, None, False).items():
+                i = self.model.cells_i_dict[id]
+                self.d_[i, 0] -= self.__calc_b_term(id, id_b, 0.0, T)
                 if self.model.bdict[id_b][0] == "pressure":
-                    self.d_[self.model.cells_i_dict[id], 0] -= self.bdict_v[id_b][0]
-                else:  # elif self.model.bdict[id_b][0] in ["gradient", "rate"]:
-                    self.d_[self.model.cells_i_dict[id], 0] -= self.rates[
-                        self.tstep, id_b
-                    ]
+                    self.A_[i, i] -= T * 2
 
         if update_z:
             self.__update_z()
@@ -597,84 +557,69 @@ class FDM(Solution):
     # Numerical Solution:
     # -------------------------------------------------------------------------
 
-    def __update_wells(self):
-        """_summary_
+    def get_constrain(self, cell_id):
+        """Returns the active constrain ("q" or "pwf") of a well.
 
+        Wells start with the specified rate (if any) until this rate
+        requires a pressure below the specified pwf.
 
-        Notes
-        -----
-        - well q calc:
-            self.__calc_w_terms(
-                    id, self.pressures[self.tstep][id]
-                )
-            or
-            self.model.wells[id]["q"] = (
-                -self.model.wells[id]["G"]
-                / (self.model.fluid.B * self.model.fluid.mu)
-                * (self.pressures[self.tstep][id] - self.model.wells[id]["pwf"])
-            )
-        - all calc original:
-            if "q" in self.model.wells[id]:
-                self.model.wells[id]["pwf"] = self.pressures[self.tstep][id] + (
-                    self.model.wells[id]["q"]
-                    * self.model.fluid.B
-                    * self.model.fluid.mu
-                    / self.model.wells[id]["G"]
-                )
-            self.model.w_pressures[id].append(self.model.wells[id]["pwf"])
-            if "pwf" in self.model.wells[id]:
-                self.model.wells[id]["q"] = (
-                    -self.model.wells[id]["G"]
-                    / (self.model.fluid.B * self.model.fluid.mu)
-                    * (self.pressures[self.tstep][id] - self.model.wells[id]["pwf"])
-                )
-                self.rates[self.tstep][id] = self.model.wells[id]["q"]
+        Parameters
+        ----------
+        cell_id : int
+            well location using cell id based on natural order as int.
         """
-        resolve = False
-        tstep_w_pressures = {}
-        for id in self.model.wells.keys():
-            if "q_sp" in self.model.wells[id]:
-                pwf_est = self.pressures[self.tstep, id] + (
-                    self.model.wells[id]["q_sp"]
-                    * self.model.fluid.B
-                    * self.model.fluid.mu
-                    / self.model.wells[id]["G"]
-                )
-            else:
-                pwf_est = self.model.wells[id]["pwf"]
+        if cell_id in self.w_constrain:
+            return self.w_constrain[cell_id]
+        return "q" if "q_sp" in self.model.wells[cell_id] else "pwf"
 
-            if pwf_est > self.model.wells[id]["pwf_sp"]:
-                self.model.wells[id]["constrain"] = "q"
-            else:
-                if (
-                    pwf_est < self.model.wells[id]["pwf_sp"]
-                    and self.model.wells[id]["q"] == self.model.wells[id]["q_sp"]
-                ):
-                    resolve = True
+    def __update_constrains(self, pressures):
+        """Update the active constrain in all wells.
 
-                self.model.wells[id]["constrain"] = "pwf"
-                pwf_est = self.model.wells[id]["pwf_sp"]
+        Parameters
+        ----------
+        pressures : ndarray
+            estimated pressures of internal cells.
 
-            self.model.wells[id]["pwf"] = pwf_est
-            q_est = self.__calc_w_term(id, self.pressures[self.tstep, id])
-            self.model.wells[id]["q"] = self.rates[self.tstep, id] = q_est
+        Returns
+        -------
+        bool
+            True if any well was switched (i.e. pressures must be solved
+            again).
+        """
+        switched = False
+        for id, well in self.model.wells.items():
+            if "q_sp" not in well:
+                continue
+            p = pressures[self.model.cells_i_dict[id]]
+            pwf_est = p + well["q_sp"] / self.__calc_well_J(id)
+            constrain = "q" if pwf_est > well["pwf_sp"] else "pwf"
+            if constrain != self.get_constrain(id):
+                self.w_constrain[id] = constrain
+                switched = True
+        return switched
 
-            if resolve:
-                return True
+    def __update_wells(self):
+        """Update wells using the pressures of the current time step."""
+        self.sync_wells()
+        for id, well in self.model.wells.items():
+            p = self.pressures[self.tstep, id]
+            constrain = self.get_constrain(id)
+            q = self.__calc_w_term(id, p)
+            if constrain == "q":
+                pwf = p + q / self.__calc_well_J(id)
             else:
-                tstep_w_pressures[id] = pwf_est
-
-        for id in self.model.wells.keys():
-            self.model.w_pressures[id].append(tstep_w_pressures[id])
-
-        return False
+                pwf = well["pwf_sp"]
+            self.rates[self.tstep, id] = q
+            self.w_pressures[id].append(pwf)
+            well.update({"q": q, "pwf": pwf, "constrain": constrain})
 
     def __update_boundaries(self):
-        for id_b in self.model.bdict_update:
-            ((id_n, T),) = self.model.get_cell_trans(id_b, None, False).items()
-            p_n = self.pressures[self.tstep, id_n]
-            b_terms = self.__calc_b_term(id_n, id_b, p_n, T)
-            self.rates[self.tstep, id_b] = b_terms
+        for id_b, (cond, v) in self.model.bdict.items():
+            if cond == "pressure":
+                self.pressures[self.tstep, id_b] = v
+            for id_n, T in self.model.get_cell_trans(id_b, None, False).items():
+                p_n = self.pressures[self.tstep, id_n]
+                self.rates[self.tstep, id_b] = self.__calc_b_term(id_n, id_b, p_n, T)
 
     def __print_arrays(self, sparse):
         if sparse:
@@ -727,7 +672,38 @@ class FDM(Solution):
 
         >>> pressures = np.dot(np.linalg.inv(A), d).flatten()
         """
-        # sparse = self.sparse
+        # wells may switch their constrains once or few of them at a time:
+        resolves = len(self.model.wells) + 2 if update else 0
+        for i in range(resolves + 1):
+            A, d, pressures = self.__solve_arrays(
+                threading, vectorize, print_arrays, isolver
+            )
+            if i == resolves or not self.__update_constrains(pressures):
+                break
+            if self.model.verbose:
+                print(f"[info] Time step {self.tstep + 1} is resolved.")
+
+        if update:
+            new_pressures = np.full_like(self.pressures[-1:], np.nan)
+            new_pressures[0, self.model.grid.cells_id] = pressures
+            new_rates = np.zeros_like(self.rates[-1:])
+            self.pressures = np.vstack([self.pressures, new_pressures])
+            self.rates = np.vstack([self.rates, new_rates])
+            self.As = np.vstack([self.As, A.reshape(1, -1)])
+            self.ds = np.vstack([self.ds, d.reshape(1, -1)])
+            self.tstep += 1
+            self.nsteps = self.tstep + 1
+            self.__update_boundaries()
+            self.__update_wells()
+
+            if check_MB:
+                self.check_MB()
+
+        if self.model.verbose:
+            print("[info] Pressures:\n", self.pressures[self.tstep])
+            print("[info] rates:\n", self.rates[self.tstep])
+
+    def __solve_arrays(self, threading, vectorize, print_arrays, isolver):
         if print_arrays:
             A, d = self.get_matrices_symb(threading)  #  has to be first
             self.get_matrices_vect(threading)
@@ -755,32 +731,7 @@ class FDM(Solution):
         else:
             pressures = sl.solve(A, d).flatten()
 
-        if update:
-            self.tstep += 1
-            self.pressures = np.vstack([self.pressures, self.pressures[-1]])
-            self.pressures[self.tstep, self.model.grid.cells_id] = pressures
-            self.rates = np.vstack([self.rates, self.rates[-1]])
-            # newtest
-            # self.model.As = np.vstack([self.model.As, A.reshape(1, -1)])
-            # self.model.ds = np.vstack([self.model.ds, d.reshape(1, -1)])
-            self.As = np.vstack([self.As, A.reshape(1, -1)])
-            self.ds = np.vstack([self.ds, d.reshape(1, -1)])
-            self.__update_boundaries()
-            resolve = self.__update_wells()
-            if resolve:
-                self.rates = self.rates[: self.tstep]
-                self.pressures = self.pressures[: self.tstep]
-                self.tstep -= 1
-                self.solve(threading, vectorize, False, True, False)
-                if self.model.verbose:
-                    print(f"[info] Time step {self.tstep} was resolved.")
-
-            if check_MB:
-                self.check_MB()
-
-        if self.model.verbose:
-            print("[info] Pressures:\n", self.pressures[self.tstep])
-            print("[info] rates:\n", self.rates[self.tstep])
+        return A, d, pressures
 
     def run(
         self,
@@ -817,13 +768,9 @@ class FDM(Solution):
         - SciPy: `Iterative Solvers <https://scipy-lectures.org/advanced/scipy_sparse/solvers.html#iterative-solvers>`_.
         """
         start_time = time.time()
-        self.nsteps += nsteps
         self.run_ctime = 0
-        if self.model.verbose:
-            self.model.verbose = False
-            verbose_restore = True
-        else:
-            verbose_restore = False
+        verbose_restore = self.model.verbose
+        self.model.verbose = False
         print(f"[info] Simulation run started: {nsteps} timesteps.")
         pbar = tqdm(
             range(1, nsteps + 1),
@@ -843,6 +790,7 @@ class FDM(Solution):
                 print_arrays,
                 isolver,
             )
+        self.model.verbose = verbose_restore
 
         self.run_ctime = round(time.time() - start_time, 2)
         self.ctime += self.run_ctime
@@ -853,9 +801,6 @@ class FDM(Solution):
         if check_MB:
             print(f"[info] Material Balance Error: {self.error}.")
 
-        if verbose_restore:
-            self.model.verbose = True
-
     # -------------------------------------------------------------------------
     # Material Balance:
     # -------------------------------------------------------------------------
diff --git a/reservoirflow/solutions/solution.py b/reservoirflow/solutions/solution.py
index 7da4fa0..d0e8572 100644
--- a/reservoirflow/solutions/solution.py
+++ b/reservoirflow/solutions/solution.py
@@ -1,4 +1,7 @@
 from abc import ABC, abstractmethod
+
+import numpy as np
+
 import reservoirflow as rf
 
 class Solution(ABC):
@@ -36,6 +39,18 @@ class Solution(ABC):
         self.nsteps = 1
         self.tstep = 0
         self.ctime = 0
+        # wells in this solution, cell id: constrain / pressures at all steps
+        self.w_constrain = {}
+        self.w_pressures = {}
+        self.sync_wells()
+
+    def sync_wells(self):
+        """Add wells that were set after this solution was created."""
+        for id in self.model.wells:
+            if id not in self.w_pressures:
+                w_pressures = [np.nan] * self.tstep
+                w_pressures.append(self.pressures[self.tstep, id])
+                self.w_pressures[id] = w_pressures
 
     @abstractmethod
     def solve(self):
-- 
2.43.0


From 414bc0d1cef438e724ce36fd3bb35006c4291442 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:53:27 +0000
Subject: [PATCH 09/26] fix: a failed or interrupted step leaves nothing behind

pressures, rates, tstep, nsteps, wells and verbose stayed half-updated when
solve() or run() was interrupted, so the simulation could not be resumed.
---
 reservoirflow/solutions/numerical/fdm.py | 113 +++++++++++++++--------
 1 file changed, 76 insertions(+), 37 deletions(-)

diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index 9add46c..7e3a559 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -672,32 +672,38 @@ class FDM(Solution):
 
         >>> pressures = np.dot(np.linalg.inv(A), d).flatten()
         """
-        # wells may switch their constrains once or few of them at a time:
-        resolves = len(self.model.wells) + 2 if update else 0
-        for i in range(resolves + 1):
-            A, d, pressures = self.__solve_arrays(
-                threading, vectorize, print_arrays, isolver
-            )
-            if i == resolves or not self.__update_constrains(pressures):
-                break
-            if self.model.verbose:
-                print(f"[info] Time step {self.tstep + 1} is resolved.")
-
-        if update:
-            new_pressures = np.full_like(self.pressures[-1:], np.nan)
-            new_pressures[0, self.model.grid.cells_id] = pressures
-            new_rates = np.zeros_like(self.rates[-1:])
-            self.pressures = np.vstack([self.pressures, new_pressures])
-            self.rates = np.vstack([self.rates, new_rates])
-            self.As = np.vstack([self.As, A.reshape(1, -1)])
-            self.ds = np.vstack([self.ds, d.reshape(1, -1)])
-            self.tstep += 1
-            self.nsteps = self.tstep + 1
-            self.__update_boundaries()
-            self.__update_wells()
-
-            if check_MB:
-                self.check_MB()
+        backup = self.__get_state()
+        try:
+            # wells may switch their constrains once or few of them at a time:
+            resolves = len(self.model.wells) + 2 if update else 0
+            for i in range(resolves + 1):
+                A, d, pressures = self.__solve_arrays(
+                    threading, vectorize, print_arrays, isolver
+                )
+                if i == resolves or not self.__update_constrains(pressures):
+                    break
+                if self.model.verbose:
+                    print(f"[info] Time step {self.tstep + 1} is resolved.")
+
+            if update:
+                new_pressures = np.full_like(self.pressures[-1:], np.nan)
+                new_pressures[0, self.model.grid.cells_id] = pressures
+                new_rates = np.zeros_like(self.rates[-1:])
+                self.pressures = np.vstack([self.pressures, new_pressures])
+                self.rates = np.vstack([self.rates, new_rates])
+                self.As = np.vstack([self.As, A.reshape(1, -1)])
+                self.ds = np.vstack([self.ds, d.reshape(1, -1)])
+                self.tstep += 1
+                self.nsteps = self.tstep + 1
+                self.__update_boundaries()
+                self.__update_wells()
+
+                if check_MB:
+                    self.check_MB()
+        except BaseException:
+            # an interrupted or failed step leaves nothing behind:
+            self.__set_state(backup)
+            raise
 
         if self.model.verbose:
             print("[info] Pressures:\n", self.pressures[self.tstep])
@@ -733,6 +739,37 @@ class FDM(Solution):
 
         return A, d, pressures
 
+    def __get_state(self):
+        state = {
+            name: getattr(self, name, None)
+            for name in [
+                "tstep",
+                "nsteps",
+                "pressures",
+                "rates",
+                "As",
+                "ds",
+                "error",
+                "cumulative_error",
+            ]
+        }
+        state["w_constrain"] = dict(self.w_constrain)
+        w_pressures = {id: len(v) for id, v in self.w_pressures.items()}
+        wells = {id: dict(well) for id, well in self.model.wells.items()}
+        return state, w_pressures, wells
+
+    def __set_state(self, backup):
+        state, w_pressures, wells = backup
+        for name, value in state.items():
+            setattr(self, name, value)
+        for id in list(self.w_pressures):
+            if id in w_pressures:
+                del self.w_pressures[id][w_pressures[id] :]
+            else:
+                del self.w_pressures[id]
+        for id, well in wells.items():
+            self.model.wells[id].update(well)
+
     def run(
         self,
         nsteps=10,
@@ -780,17 +817,19 @@ class FDM(Solution):
             leave=True,
         )
 
-        for step in pbar:
-            pbar.set_description(f"[step] {step}")
-            self.solve(
-                threading,
-                vectorize,
-                check_MB,
-                True,
-                print_arrays,
-                isolver,
-            )
-        self.model.verbose = verbose_restore
+        try:
+            for step in pbar:
+                pbar.set_description(f"[step] {step}")
+                self.solve(
+                    threading,
+                    vectorize,
+                    check_MB,
+                    True,
+                    print_arrays,
+                    isolver,
+                )
+        finally:
+            self.model.verbose = verbose_restore
 
         self.run_ctime = round(time.time() - start_time, 2)
         self.ctime += self.run_ctime
-- 
2.43.0


From 9251d0b5784dec73d942b7387da8b066ef2eb4ae Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:53:27 +0000
Subject: [PATCH 10/26] fix: a solution which is not finite is an error

Singular matrices gave a recorded step full of nan.
---
 reservoirflow/solutions/numerical/fdm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index 7e3a559..00aaf87 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -737,6 +737,9 @@ class FDM(Solution):
         else:
             pressures = sl.solve(A, d).flatten()
 
+        if not np.all(np.isfinite(pressures)):
+            raise ValueError("The solution has values which are not finite.")
+
         return A, d, pressures
 
     def __get_state(self):
-- 
2.43.0


From 76dde9e901763a30f469dfdf0fe9e4e85def4941 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:55:53 +0000
Subject: [PATCH 11/26] fix: gravity between cells in the vectorized matrices

Depth differences were only considered in 1D, with equal cells, a dense
solution and a well with a constant rate.
---
 reservoirflow/solutions/numerical/fdm.py | 30 +++++++-----------------
 1 file changed, 8 insertions(+), 22 deletions(-)

diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index 00aaf87..f6c1278 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -493,23 +493,13 @@ class FDM(Solution):
         return self.d_
 
     def __update_z(self):
-        """_summary_"""
-        # ToDo
-        # ----
-        # - T for different geometries is still not ready.
-
-        # all 1D in x direction.
-        z = self.model.grid.z[self.model.grid.cells_id]
+        """Update constant vector (`d`) with the gravity between cells."""
+        z = self.model.grid.z[self.model.grid.cells_id].reshape(-1, 1)
         if not np.all(z == z[0]):
-            z_l = np.append(z[1:], np.nan)
-            z_u = np.append(np.nan, z[:-1])
-            dz_l = self.model.fluid.g * np.nan_to_num(z_l - z)
-            dz_u = self.model.fluid.g * np.nan_to_num(z_u - z)
-            # T = self.T["x"][self.model.grid.cells_id]
-            # T = np.diag(self.get_cells_T(True, False), 1)[self.model.cells_i]
-            T = self.model.get_cells_trans_diag(True, 1)[self.model.cells_id]
-            v = T * dz_l + T * dz_u
-            self.d_ += v.reshape(-1, 1)
+            T = self.model.get_cells_trans(False, self.sparse, True)
+            T_sum = np.asarray(T.sum(axis=1)).reshape(-1, 1)
+            d_ = self.d_.toarray() if self.sparse else self.d_
+            self.d_[:] = d_ + self.model.fluid.g * (T @ z - T_sum * z)
 
     def get_matrices_vect(self, threading=False):
         """_summary_
@@ -526,7 +516,6 @@ class FDM(Solution):
         _type_
             _description_
         """
-        update_z = False
         if not hasattr(self, "A_init"):
             self.__init_A()
         # boundaries and wells may change every time step:
@@ -536,9 +525,7 @@ class FDM(Solution):
         for id in self.model.wells.keys():
             i = self.model.cells_i_dict[id]
             self.d_[i, 0] -= self.__calc_w_term(id, 0.0)
-            if self.get_constrain(id) == "q":
-                update_z = True
-            else:  # elif constrain == "pwf":
+            if self.get_constrain(id) == "pwf":
                 self.A_[i, i] -= self.__calc_well_J(id)
 
         for id_b in self.model.bdict.keys():
@@ -548,8 +535,7 @@ class FDM(Solution):
                 if self.model.bdict[id_b][0] == "pressure":
                     self.A_[i, i] -= T * 2
 
-        if update_z:
-            self.__update_z()
+        self.__update_z()
 
         return self.A_, self.d_
 
-- 
2.43.0


From c9918619479c7bc905f6265b5f8a2db46ec1e547 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:55:53 +0000
Subject: [PATCH 12/26] fix: one time value for each time step

np.arange(0, stop, dt) may add a value when dt is not an integer.
---
 reservoirflow/models/black_oil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index 843002f..23b44b9 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -779,7 +779,7 @@ class BlackOil(Model):
         return df
 
     def __get_time_vector(self):
-        return np.arange(0, (self.__get_tstep() + 1) * self.dt, self.dt)
+        return np.arange(self.__get_tstep() + 1) * self.dt
 
     def __update_time_scaler(self):
         time = self.__get_time_vector()
-- 
2.43.0


From 5cf2b56b726cb744dd9465cd3b4b4e39f7163e43 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:56:22 +0000
Subject: [PATCH 13/26] fix: refused scalers leave the settings as they were

---
 reservoirflow/models/black_oil.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index 23b44b9..43863fd 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -4,6 +4,7 @@ BlackOil
 """
 
 import warnings
+from copy import copy
 from datetime import date
 
 import matplotlib.pyplot as plt
@@ -913,28 +914,31 @@ class BlackOil(Model):
         }
         # col_vals = sum(col_dict.values(), [])
 
+        scalers = {}
         for column in scalers_dict.keys():
             scaler_type = scalers_dict[column][0]
-            output_range = scalers_dict[column][1]
+            output_range = copy(scalers_dict[column][1])
+            scaler, s_str = create_scaler(scaler_type, output_range)
             if column.lower() in col_dict["time"]:
-                self.time_scaler, s_str = create_scaler(scaler_type, output_range)
-                column_str = "time"
+                attr, column_str = "time_scaler", "time"
             elif column.lower() in col_dict["space"]:
-                self.space_scaler, s_str = create_scaler(scaler_type, output_range)
-                column_str = "space"
+                attr, column_str = "space_scaler", "space"
             elif column.lower() in col_dict["pressure"]:
-                self.pressures_scaler, s_str = create_scaler(scaler_type, output_range)
-                column_str = "pressure"
+                attr, column_str = "pressures_scaler", "pressure"
             elif column.lower() in col_dict["rate"]:
-                self.rates_scaler, s_str = create_scaler(scaler_type, output_range)
-                column_str = "rate"
+                attr, column_str = "rates_scaler", "rate"
             else:  # if column.lower() not in col_vals:
                 raise ValueError(f"column {column} does not exist.")
 
             if scaler_type is None or output_range is None:
-                self.scalers_dict[column_str] = [None, None]
+                scalers[column_str] = (attr, scaler, [None, None])
             else:
-                self.scalers_dict[column_str] = [s_str, scalers_dict[column][1]]
+                scalers[column_str] = (attr, scaler, [s_str, output_range])
+
+        # scalers are changed only if all settings are valid:
+        for column_str, (attr, scaler, config) in scalers.items():
+            setattr(self, attr, scaler)
+            self.scalers_dict[column_str] = config
 
     def get_df(
         self,
-- 
2.43.0


From 1e59cf9d64a59e543d1073a6129f62d43183ca85 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:56:22 +0000
Subject: [PATCH 14/26] fix: cProfiler stops profiling when the function fails

The profiler stayed active and every later profiled call raised; nested
profiled calls raised as well.
---
 reservoirflow/utils/profme.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/reservoirflow/utils/profme.py b/reservoirflow/utils/profme.py
index bf0435c..8449f34 100644
--- a/reservoirflow/utils/profme.py
+++ b/reservoirflow/utils/profme.py
@@ -63,9 +63,15 @@ def cProfiler(sort_stats="tottime", print_output=True, save_output=False):
         def wrapped_func(*args, **kwargs):
             pr = cProfile.Profile()
             s = io.StringIO()
-            pr.enable()
-            _func = func(*args, **kwargs)
-            pr.disable()
+            try:
+                pr.enable()
+            except ValueError:
+                # another profiler is active (e.g. a profiled caller)
+                return func(*args, **kwargs)
+            try:
+                _func = func(*args, **kwargs)
+            finally:
+                pr.disable()
             stats = pstats.Stats(pr, stream=s).sort_stats(sort_stats)
             stats.print_stats()
             result = s.getvalue()
-- 
2.43.0


From d709276be0eeb78c94f2cb2385157281d5e3cfa0 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:56:46 +0000
Subject: [PATCH 15/26] fix: scalers ignore missing values

A boundary pressure or a well set during the simulation turned every scaled
value into nan.
---
 reservoirflow/scalers/minmax.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/reservoirflow/scalers/minmax.py b/reservoirflow/scalers/minmax.py
index 63502ff..8277d54 100644
--- a/reservoirflow/scalers/minmax.py
+++ b/reservoirflow/scalers/minmax.py
@@ -3,6 +3,8 @@ MinMax
 ------
 """
 
+import numpy as np
+
 from reservoirflow.scalers.scaler import Scaler
 
 
@@ -61,8 +63,8 @@ class MinMax(Scaler):
                 + "Note that in this case overall min and max are used for scaling."
             )
             raise ValueError(msg)
-        self.vmin = v.min(axis=axis)  #: input minimum value.
-        self.vmax = v.max(axis=axis)  #: input maximum value.
+        self.vmin = np.nanmin(v, axis=axis)  #: input minimum value.
+        self.vmax = np.nanmax(v, axis=axis)  #: input maximum value.
         return self
 
     def transform(self, v):
-- 
2.43.0


From 8f1abc55b7e1866e5c100379df7c8188b080bcf7 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 17:31:54 +0000
Subject: [PATCH 16/26] fix: verbose is restored wherever a run is interrupted

An interrupt or a failing progress bar before the first step left the model
silent, since verbose was switched off before the try block.
---
 reservoirflow/solutions/numerical/fdm.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index f6c1278..d9135e5 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -796,17 +796,17 @@ class FDM(Solution):
         start_time = time.time()
         self.run_ctime = 0
         verbose_restore = self.model.verbose
-        self.model.verbose = False
-        print(f"[info] Simulation run started: {nsteps} timesteps.")
-        pbar = tqdm(
-            range(1, nsteps + 1),
-            unit="steps",
-            colour="green",
-            position=0,
-            leave=True,
-        )
-
         try:
+            self.model.verbose = False
+            print(f"[info] Simulation run started: {nsteps} timesteps.")
+            pbar = tqdm(
+                range(1, nsteps + 1),
+                unit="steps",
+                colour="green",
+                position=0,
+                leave=True,
+            )
+
             for step in pbar:
                 pbar.set_description(f"[step] {step}")
                 self.solve(
-- 
2.43.0


From d8c5b8fc82afc16ae5cb0a5033df7a47ded91c97 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 17:31:54 +0000
Subject: [PATCH 17/26] fix: a run of zero steps of a new solution succeeds

It raised AttributeError when reporting the material balance error, which is
only defined after the first checked step.
---
 reservoirflow/solutions/numerical/fdm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index d9135e5..32cdda6 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -52,6 +52,7 @@ class FDM(Solution):
         # newtest
         self.ds = self.model.grid.get_zeros(False, False, False)[np.newaxis]
         self.As = np.zeros((1, self.model.n * self.model.n), dtype=self.model.dtype)
+        self.error = None  # material balance was not checked yet
 
     # -------------------------------------------------------------------------
     # Flow Equations: symbolic
-- 
2.43.0


From 8b4c203815317fb0d987cae3283e727dfa01fb76 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 17:32:42 +0000
Subject: [PATCH 18/26] fix: wells, boundaries and compiling change nothing
 when they fail half-way

Everything that can fail (copies of arrays, well pressures, the name of the
solution) is computed before the model and its solutions are changed.
---
 reservoirflow/models/black_oil.py   | 19 ++++++++++++++-----
 reservoirflow/models/model.py       | 14 +++++++++++---
 reservoirflow/solutions/solution.py | 11 +++++++----
 3 files changed, 32 insertions(+), 12 deletions(-)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index 43863fd..9f808e1 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -491,11 +491,14 @@ class BlackOil(Model):
         props["r_eq"] = self.__calc_well_r_eq(cell_id)
         props["G"] = self.__calc_well_G(cell_id, props)
 
+        solutions = list(self.solutions.values())
+        w_pressures = [solution.get_w_pressures(cell_id) for solution in solutions]
+
         # the well is changed only if all properties are valid:
         self.wells[cell_id] = props
-        for solution in self.solutions.values():
+        for solution, values in zip(solutions, w_pressures):
             solution.w_constrain.pop(cell_id, None)
-            solution.sync_wells()
+            solution.w_pressures[cell_id] = values
 
         if self.verbose:
             print(f"[info] a well in cell {cell_id} was set.")
@@ -576,12 +579,18 @@ class BlackOil(Model):
                 pressures[0, id_b] = v
             else:
                 rates[0, id_b] = self.__calc_boundary_rate(id_b, cond, v)
+        arrays = [
+            (solution, pressures.copy(), rates.copy())
+            for solution in self.solutions.values()
+            if solution.tstep == 0
+        ]
+
+        # boundaries are changed only if all conditions are valid:
         self.bdict = bdict
         self.cells_terms = {}  # include boundary terms
         self.init_pressures, self.init_rates = pressures, rates
-        for solution in self.solutions.values():
-            if solution.tstep == 0:
-                solution.pressures, solution.rates = self.get_init_arrays()
+        for solution, solution_pressures, solution_rates in arrays:
+            solution.pressures, solution.rates = solution_pressures, solution_rates
 
     def set_boundaries(self, bdict: dict):
         """Set boundary conditions using a dictionary.
diff --git a/reservoirflow/models/model.py b/reservoirflow/models/model.py
index 638a21c..ea6ccdd 100644
--- a/reservoirflow/models/model.py
+++ b/reservoirflow/models/model.py
@@ -108,9 +108,17 @@ class Model(ABC, Base):
             using sparse computing for a better performance.
         
         """
-        self.compiler = Compiler(self, stype, method, sparse)
-        self.solutions[str(self.compiler)] = self.solution
-        self.compilers[str(self.compiler)] = self.compiler
+        solution = self.solution
+        try:
+            compiler = Compiler(self, stype, method, sparse)
+            name = str(compiler)
+        except BaseException:
+            # the assigned solution is changed only if compiling succeeds:
+            self.solution = solution
+            raise
+        self.compiler = compiler
+        self.solutions[name] = self.solution
+        self.compilers[name] = compiler
         self.solve = self.solution.solve
         self.run = self.solution.run
         
diff --git a/reservoirflow/solutions/solution.py b/reservoirflow/solutions/solution.py
index d0e8572..58445ee 100644
--- a/reservoirflow/solutions/solution.py
+++ b/reservoirflow/solutions/solution.py
@@ -44,13 +44,16 @@ class Solution(ABC):
         self.w_pressures = {}
         self.sync_wells()
 
+    def get_w_pressures(self, id):
+        """Pressures of a well at all steps (not defined before it was set)."""
+        if id in self.w_pressures:
+            return self.w_pressures[id]
+        return [np.nan] * self.tstep + [self.pressures[self.tstep, id]]
+
     def sync_wells(self):
         """Add wells that were set after this solution was created."""
         for id in self.model.wells:
-            if id not in self.w_pressures:
-                w_pressures = [np.nan] * self.tstep
-                w_pressures.append(self.pressures[self.tstep, id])
-                self.w_pressures[id] = w_pressures
+            self.w_pressures[id] = self.get_w_pressures(id)
 
     @abstractmethod
     def solve(self):
-- 
2.43.0


From ac37711616c6e3f18f3532c7e3a96aee07cef21c Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 17:55:34 +0000
Subject: [PATCH 19/26] fix: cProfiler copes with commas in file names

---
 reservoirflow/utils/profme.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/reservoirflow/utils/profme.py b/reservoirflow/utils/profme.py
index 8449f34..6b7ab99 100644
--- a/reservoirflow/utils/profme.py
+++ b/reservoirflow/utils/profme.py
@@ -15,6 +15,7 @@ __all__ = [
 import os
 import sys
 import cProfile
+import csv
 import io
 import pstats
 import re
@@ -76,7 +77,11 @@ def cProfiler(sort_stats="tottime", print_output=True, save_output=False):
             stats.print_stats()
             result = s.getvalue()
             result = [l.strip() for l in re.split("\n+", result)][2:-1]
-            result = [re.sub(r"\s+", ",", r, count=5) for r in result]
+            # a file name may contain commas (it is quoted then):
+            data = io.StringIO()
+            writer = csv.writer(data, lineterminator="\n")
+            writer.writerows([r.split(maxsplit=5) for r in result])
+            result = data.getvalue().splitlines()
             if print_output:
                 data = io.StringIO("\n".join(result))
                 df = pd.read_csv(data, sep=",")
-- 
2.43.0


From 3ac1ecad1fa5f463fec5d9d585ee4a27a7d4cbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 18:15:50 +0000
Subject: [PATCH 20/26] fix: geometry factor of boundary cells which differ
 from the others

---
 reservoirflow/grids/regular_cartesian.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reservoirflow/grids/regular_cartesian.py b/reservoirflow/grids/regular_cartesian.py
index 6b9eb91..96edcb2 100644
--- a/reservoirflow/grids/regular_cartesian.py
+++ b/reservoirflow/grids/regular_cartesian.py
@@ -3019,7 +3019,8 @@ class RegularCartesian(Grid):
                     A_n = self.get_cell_A(fdir, None, id_n)
                     k_n = self.get_cell_k(fdir, None, id_n)
 
-                if self.is_isotropic:  # or regular grid (To do)
+                # boundary cells may differ from the other cells:
+                if self.is_isotropic and k == k_n:  # or regular grid (To do)
                     G[id_n] = (
                         self.factors["transmissibility conversion"]
                         * ((k + k_n) / 2)
-- 
2.43.0


From 2a1c5992d16d158c04e57cbf948366436d8702d3 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 18:15:50 +0000
Subject: [PATCH 21/26] fix: cProfiler stops profiling when interrupted

---
 reservoirflow/utils/profme.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/reservoirflow/utils/profme.py b/reservoirflow/utils/profme.py
index 6b7ab99..dce9dde 100644
--- a/reservoirflow/utils/profme.py
+++ b/reservoirflow/utils/profme.py
@@ -65,11 +65,11 @@ def cProfiler(sort_stats="tottime", print_output=True, save_output=False):
             pr = cProfile.Profile()
             s = io.StringIO()
             try:
-                pr.enable()
-            except ValueError:
-                # another profiler is active (e.g. a profiled caller)
-                return func(*args, **kwargs)
-            try:
+                try:
+                    pr.enable()
+                except ValueError:
+                    # another profiler is active (e.g. a profiled caller)
+                    return func(*args, **kwargs)
                 _func = func(*args, **kwargs)
             finally:
                 pr.disable()
-- 
2.43.0


From 176bd2e4fb1eaf14da6a95d402c306e6420e8ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 20:22:10 +0000
Subject: [PATCH 22/26] fix: dates advance in the time unit of the model

---
 reservoirflow/models/black_oil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index 9f808e1..3fc5c37 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -693,7 +693,7 @@ class BlackOil(Model):
         date_series = pd.date_range(
             start=self.start_date,
             periods=self.__get_tstep() + 1,
-            freq=str(self.dt) + "D",
+            freq=str(self.dt) + {"days": "D", "sec": "s"}[self.units["time"]],
         ).strftime("%d.%m.%Y")
         data = pd.Series(date_series, name="Date" + date_str)
         if melt:
-- 
2.43.0


From 80fbb298979ebf4dfe05d153af41d2c9f8e35823 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 20:22:10 +0000
Subject: [PATCH 23/26] fix: refused fluid properties leave the fluid as it was

---
 reservoirflow/fluids/single_phase.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/reservoirflow/fluids/single_phase.py b/reservoirflow/fluids/single_phase.py
index cc0d8bb..041a417 100644
--- a/reservoirflow/fluids/single_phase.py
+++ b/reservoirflow/fluids/single_phase.py
@@ -117,12 +117,12 @@ class SinglePhase(Fluid):
         rho : float
             fluid density.
         """
-        self.rho = rho  #: Fluid density.
         self.g = (
             self.factors["gravity conversion"]
-            * self.rho
+            * rho
             * self.factors["gravitational acceleration"]
         )
+        self.rho = rho  #: Fluid density.
 
     def set_props(
         self,
@@ -146,14 +146,20 @@ class SinglePhase(Fluid):
         comp : float, optional
             fluid compressibility.
         """
-        if mu is not None:
-            self.set_mu(mu)
-        if B is not None:
-            self.set_B(B)
-        if rho is not None:
-            self.set_rho(rho)
-        if comp is not None:
-            self.set_comp(comp)
+        backup = vars(self).copy()
+        try:
+            if mu is not None:
+                self.set_mu(mu)
+            if B is not None:
+                self.set_B(B)
+            if rho is not None:
+                self.set_rho(rho)
+            if comp is not None:
+                self.set_comp(comp)
+        except BaseException:
+            # a refused property leaves all properties as they were:
+            vars(self).update(backup)
+            raise
         if not hasattr(self, "rho"):
             self.set_rho(0)
         if not hasattr(self, "comp"):
-- 
2.43.0


From dbb00d64f8fb4f1dc8028d029567825e6fab2dac Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 20:22:10 +0000
Subject: [PATCH 24/26] fix: an interrupted step does not leave well rates
 behind

---
 reservoirflow/solutions/numerical/fdm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/reservoirflow/solutions/numerical/fdm.py b/reservoirflow/solutions/numerical/fdm.py
index 32cdda6..948f794 100644
--- a/reservoirflow/solutions/numerical/fdm.py
+++ b/reservoirflow/solutions/numerical/fdm.py
@@ -758,6 +758,7 @@ class FDM(Solution):
             else:
                 del self.w_pressures[id]
         for id, well in wells.items():
+            self.model.wells[id].clear()
             self.model.wells[id].update(well)
 
     def run(
-- 
2.43.0


From 7f2fdba1a63a07e187c1c8f56c10165bfa6396f0 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 00:51:10 +0000
Subject: [PATCH 25/26] fix: plot and plot_grid take the series of the solution

---
 reservoirflow/models/black_oil.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/reservoirflow/models/black_oil.py b/reservoirflow/models/black_oil.py
index 3fc5c37..725cd06 100644
--- a/reservoirflow/models/black_oil.py
+++ b/reservoirflow/models/black_oil.py
@@ -1102,10 +1102,10 @@ class BlackOil(Model):
             tstep = self.__get_tstep()
 
         if id is not None:
-            exec(f"plt.plot(self.{prop}[:, id].flatten())")
+            exec(f"plt.plot(self.solution.{prop}[:, id].flatten())")
             plt.xlabel("Days")
         elif tstep is not None:
-            exec(f"plt.plot(self.{prop}[tstep, :].flatten())")
+            exec(f"plt.plot(self.solution.{prop}[tstep, :].flatten())")
             plt.xlabel("Grid (id)")
             boundary = True
             x_skip = 5
@@ -1120,7 +1120,9 @@ class BlackOil(Model):
         if tstep is None:
             tstep = self.__get_tstep()
         cells_id = self.grid.get_cells_id(False, False, "list")
-        exec(f"plt.imshow(self.{property}[tstep][cells_id][np.newaxis, :])")
+        exec(
+            f"plt.imshow(self.solution.{property}[tstep][cells_id][np.newaxis, :])"
+        )
         plt.colorbar(label=f"{property.capitalize()} ({self.units[property[:-1]]})")
         plt.title(f"{property.capitalize()} Distribution")
         plt.yticks([])
-- 
2.43.0


From e53347127b46659b882f4000bc3ccb2191d7f126 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 00:51:10 +0000
Subject: [PATCH 26/26] fix: save_gif closes its file when a frame fails

---
 reservoirflow/utils/pyvista.py | 39 +++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/reservoirflow/utils/pyvista.py b/reservoirflow/utils/pyvista.py
index 6b038e1..25923e5 100644
--- a/reservoirflow/utils/pyvista.py
+++ b/reservoirflow/utils/pyvista.py
@@ -1055,26 +1055,27 @@ def save_gif(
     if ruler:
         add_ruler(pl, grid_pv)
 
-    pl.open_gif(
-        filename=file_name,
-        loop=0,
-        fps=fps,
-        palettesize=256,
-        subrectangles=False,
-    )
-
-    for tstep in range(model.solution.nsteps):
-        if info:
-            date.SetInput(f"    current date: {dates[tstep]}")
-            time_step.SetInput(f"current timestep: {tstep:02d}")
-            value_avg.SetInput(f"    avg pressure: {np.nanmean(values[tstep]):.0f}")
-            value_min.SetInput(f"    min pressure: {np.nanmin(values[tstep]):.0f}")
-            value_max.SetInput(f"    max pressure: {np.nanmax(values[tstep]):.0f}")
-        # pl.update_scalars(values[tstep], grid_pv, render=False)  # Deprecated
-        grid_pv["Data"] = values[tstep]
-        pl.write_frame()
+    try:
+        pl.open_gif(
+            filename=file_name,
+            loop=0,
+            fps=fps,
+            palettesize=256,
+            subrectangles=False,
+        )
 
-    pl.close()
+        for tstep in range(model.solution.nsteps):
+            if info:
+                date.SetInput(f"    current date: {dates[tstep]}")
+                time_step.SetInput(f"current timestep: {tstep:02d}")
+                value_avg.SetInput(f"    avg pressure: {np.nanmean(values[tstep]):.0f}")
+                value_min.SetInput(f"    min pressure: {np.nanmin(values[tstep]):.0f}")
+                value_max.SetInput(f"    max pressure: {np.nanmax(values[tstep]):.0f}")
+            # pl.update_scalars(values[tstep], grid_pv, render=False)  # Deprecated
+            grid_pv["Data"] = values[tstep]
+            pl.write_frame()
+    finally:
+        pl.close()
 
 
 def show_model(
-- 
2.43.0

