From 20bc1f99245a7939c3baa9ab4ccf4c1850326389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:27 +0000
Subject: [PATCH 01/39] fix: cut intersecting items towards the right side in
 top-down stacks

---
 pvgridder/core/_base.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/pvgridder/core/_base.py b/pvgridder/core/_base.py
index e2263ee..1412eaf 100644
--- a/pvgridder/core/_base.py
+++ b/pvgridder/core/_base.py
@@ -449,26 +449,23 @@ class MeshStackBase(MeshBase):
             if item2.transition:
                 continue
 
+            sign = 1.0 if self.bottom_up else -1.0
             shift = (
-                item2.mesh.points[:, self.axis]
-                - item1.mesh.points[:, self.axis]
+                sign * (item2.mesh.points[:, self.axis] - item1.mesh.points[:, self.axis])
                 - item2.thickness
             )
 
-            if not self.bottom_up:
-                shift *= -1.0
-
             if item2.priority < item1.priority:
                 item2.mesh.points[:, self.axis] = np.where(  # type: ignore
                     shift < 0.0,
-                    item2.mesh.points[:, self.axis] - shift,
+                    item2.mesh.points[:, self.axis] - sign * shift,
                     item2.mesh.points[:, self.axis],
                 )
 
             else:
                 item1.mesh.points[:, self.axis] = np.where(  # type: ignore
                     shift < 0.0,
-                    item1.mesh.points[:, self.axis] + shift,
+                    item1.mesh.points[:, self.axis] + sign * shift,
                     item1.mesh.points[:, self.axis],
                 )
 
-- 
2.43.0


From ef6ddf73855f065e2cdb690094fb1a78a52e0091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:27 +0000
Subject: [PATCH 02/39] fix: repeat line data in the point/cell order of the
 swapped planes (yx, zx, zy)

---
 pvgridder/core/_helpers.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pvgridder/core/_helpers.py b/pvgridder/core/_helpers.py
index 09cdff9..fdadceb 100644
--- a/pvgridder/core/_helpers.py
+++ b/pvgridder/core/_helpers.py
@@ -210,13 +210,19 @@ def generate_surface_from_two_lines(
     mesh = pv.StructuredGrid(X, Y, Z)
 
     if isinstance(line_a, pv.PolyData):
-        reps = (perc.size, 1)
+        if plane in {"xy", "xz", "yz"}:
+            repeat = lambda v, n: np.tile(v, (n, 1)[: v.ndim]).copy()
+
+        else:
+            repeat = lambda v, n: np.repeat(v, n, axis=0)
+
+        # Repeat point data
         for k, v in line_a.point_data.items():
-            mesh.point_data[k] = np.tile(v, reps[: v.ndim]).copy()
+            mesh.point_data[k] = repeat(v, perc.size)
 
-        reps = (perc.size - 1, 1)
+        # Repeat cell data
         for k, v in line_a.cell_data.items():
-            mesh.cell_data[k] = np.tile(v, reps[: v.ndim]).copy()
+            mesh.cell_data[k] = repeat(v, perc.size - 1)
 
     # Handle collapsed cells
     if "vtkGhostType" not in mesh.cell_data:
-- 
2.43.0


From 4c2ebbb0dd57c7642c5e19758fdf7d0fa31c40e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:27 +0000
Subject: [PATCH 03/39] fix: do not reverse the polygons of the input surface
 when extruding them

---
 pvgridder/core/_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/core/_helpers.py b/pvgridder/core/_helpers.py
index fdadceb..341dea9 100644
--- a/pvgridder/core/_helpers.py
+++ b/pvgridder/core/_helpers.py
@@ -386,7 +386,7 @@ def generate_volume_from_two_surfaces(
         for ic, (i1, i2, celltype) in enumerate(
             zip(offset[:-1], offset[1:], celltypes)
         ):
-            cell = cell_connectivity[i1:i2]
+            cell = cell_connectivity[i1:i2].copy()
 
             # Handle pixel/voxel (convert to quad/hexahedron)
             if celltype == pv.CellType.VOXEL:
-- 
2.43.0


From 573cd03decf627699e81f3813d5cccf9615890b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:27 +0000
Subject: [PATCH 04/39] fix: keep the shape of vector data when extruding a
 single structured cell

---
 pvgridder/core/_helpers.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/pvgridder/core/_helpers.py b/pvgridder/core/_helpers.py
index 341dea9..d86c0d4 100644
--- a/pvgridder/core/_helpers.py
+++ b/pvgridder/core/_helpers.py
@@ -539,18 +539,11 @@ def repeat_structured_data(
 
     """
     data = np.asanyarray(data)
-    data = data if data.ndim == 2 else data[:, np.newaxis]
-
-    return np.column_stack(
-        [
-            np.repeat(
-                v.reshape(shape, order="F"),
-                repeats,
-                axis,
-            ).ravel(order="F")
-            for v in data.T
-        ]
-    ).squeeze()
+    shape = (*shape, *data.shape[1:])
+
+    return np.repeat(data.reshape(shape, order="F"), repeats, axis).reshape(
+        (-1, *data.shape[1:]), order="F"
+    )
 
 
 def translate(
-- 
2.43.0


From 29fa6f05ce2651b0ffddef5862ee280035c2147f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:27 +0000
Subject: [PATCH 05/39] fix: do not hide thin cells located far away from the
 origin

---
 pvgridder/core/_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/core/_helpers.py b/pvgridder/core/_helpers.py
index d86c0d4..91b0529 100644
--- a/pvgridder/core/_helpers.py
+++ b/pvgridder/core/_helpers.py
@@ -396,7 +396,7 @@ def generate_volume_from_two_surfaces(
             faces = [cell, cell + n_points]
 
             # Handle collapsed cells
-            is_collapsed = np.allclose(*points[faces])
+            is_collapsed = np.allclose(*points[faces], rtol=0.0)
 
             if celltype == pv.CellType.POLYHEDRON:
                 if invert_polyhedron_faces:
-- 
2.43.0


From 9ee75fe6d0b8bcf974804043fc8c7cb174fda4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:27 +0000
Subject: [PATCH 06/39] fix: number columns and layers along the extrusion axis
 of structured meshes

---
 pvgridder/core/_base.py   | 31 ++++++++++++++++++++++---------
 pvgridder/core/extrude.py | 21 ++++++++++-----------
 2 files changed, 32 insertions(+), 20 deletions(-)

diff --git a/pvgridder/core/_base.py b/pvgridder/core/_base.py
index 1412eaf..10078db 100644
--- a/pvgridder/core/_base.py
+++ b/pvgridder/core/_base.py
@@ -229,6 +229,20 @@ class MeshBase(ABC):
 
         return mesh
 
+    @staticmethod
+    def _get_layer_ids(
+        mesh: pv.StructuredGrid | pv.UnstructuredGrid,
+        n_layers: int,
+        axis: Optional[int] = None,
+    ) -> NDArray:
+        """Get layer number of each cell of an extruded mesh."""
+        if isinstance(mesh, pv.StructuredGrid):
+            shape = [max(1, n - 1) for n in mesh.dimensions]
+
+            return np.indices(shape)[axis].ravel(order="F")
+
+        return np.repeat(np.arange(n_layers), mesh.n_cells // n_layers)
+
     @staticmethod
     def _get_group_number(group: str, groups: dict) -> int:
         """Get group number."""
@@ -481,19 +495,18 @@ class MeshStackBase(MeshBase):
 
             if item2.transition:
                 mesh_b = self._transition(mesh_a, item2.mesh, groups, item2.group)
-                nsub, repeats = 1, mesh_b.n_cells
+                nsub = 1
                 mesh_b.cell_data["ColumnId"] = np.full(mesh_b.n_cells, -1)
+                mesh_b.cell_data["LayerId"] = np.full(mesh_b.n_cells, n_layers)
 
             else:
+                mesh_a.cell_data["ColumnId"] = np.arange(mesh_a.n_cells)
                 mesh_b = extrude(mesh_a, item2.mesh, item2.resolution, item2.method)
-                nsub, repeats = mesh_b.n_cells // mesh_a.n_cells, mesh_a.n_cells
-                mesh_b.cell_data["ColumnId"] = np.tile(
-                    np.arange(mesh_a.n_cells), nsub
-                ).copy()
-
-            mesh_b.cell_data["LayerId"] = np.repeat(
-                np.arange(nsub) + n_layers, repeats
-            ).copy()
+                nsub = mesh_b.n_cells // mesh_a.n_cells
+                mesh_b.cell_data["LayerId"] = n_layers + self._get_layer_ids(
+                    mesh_b, nsub, self.axis
+                )
+
             mesh_b.cell_data["StackItem"] = np.full(mesh_b.n_cells, i)
             meshes.append(mesh_b)
             n_layers += nsub
diff --git a/pvgridder/core/extrude.py b/pvgridder/core/extrude.py
index b95a752..11ca2ab 100644
--- a/pvgridder/core/extrude.py
+++ b/pvgridder/core/extrude.py
@@ -165,6 +165,12 @@ class MeshExtrude(MeshBase):
 
         groups = {}
 
+        axis = (
+            self.mesh.dimensions.index(1)
+            if isinstance(self.mesh, pv.StructuredGrid)
+            else None
+        )
+
         # Generate submeshes
         meshes = []
         n_layers = 0
@@ -175,27 +181,20 @@ class MeshExtrude(MeshBase):
                 mesh_a, groups, item2.group
             )
 
+            mesh_a.cell_data["ColumnId"] = np.arange(mesh_a.n_cells)
             mesh_b = generate_volume_from_two_surfaces(
                 mesh_a, item2.mesh, item2.resolution, item2.method
             )
 
             nsub = mesh_b.n_cells // mesh_a.n_cells
-            mesh_b.cell_data["ColumnId"] = np.tile(
-                np.arange(mesh_a.n_cells), nsub
-            ).copy()
-            mesh_b.cell_data["LayerId"] = np.repeat(
-                np.arange(nsub) + n_layers, mesh_a.n_cells
-            ).copy()
+            mesh_b.cell_data["LayerId"] = n_layers + self._get_layer_ids(
+                mesh_b, nsub, axis
+            )
             mesh_b.cell_data["ExtrudeItem"] = np.full(mesh_b.n_cells, i)
             meshes.append(mesh_b)
             n_layers += nsub
 
         # Merge submeshes
-        axis = (
-            self.mesh.dimensions.index(1)
-            if isinstance(self.mesh, pv.StructuredGrid)
-            else None
-        )
         mesh = merge(meshes, axis=axis, merge_points=False)
         mesh.user_dict["CellGroup"] = groups
         _ = mesh.set_active_scalars("CellGroup", preference="cell")
-- 
2.43.0


From 18e3e491d072ec6a40518d4a233c9ba29fef1243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:27 +0000
Subject: [PATCH 07/39] fix: do not cut the items of a stack in place so that
 meshes can be generated again

---
 pvgridder/core/_base.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pvgridder/core/_base.py b/pvgridder/core/_base.py
index 10078db..463df9a 100644
--- a/pvgridder/core/_base.py
+++ b/pvgridder/core/_base.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import copy
 from abc import ABC, abstractmethod
 from typing import TYPE_CHECKING, Union, cast
 
@@ -457,9 +458,13 @@ class MeshStackBase(MeshBase):
             raise ValueError("not enough items to stack")
 
         groups = {}
+        items = [copy.copy(item) for item in self.items]
+
+        for item in items:
+            item._mesh = item.mesh.copy()
 
         # Cut intersecting meshes w.r.t. priority
-        for item1, item2 in zip(self.items[:-1], self.items[1:]):
+        for item1, item2 in zip(items[:-1], items[1:]):
             if item2.transition:
                 continue
 
@@ -487,7 +492,7 @@ class MeshStackBase(MeshBase):
         meshes = []
         n_layers = 0
 
-        for i, (item1, item2) in enumerate(zip(self.items[:-1], self.items[1:])):
+        for i, (item1, item2) in enumerate(zip(items[:-1], items[1:])):
             mesh_a = item1.mesh.copy()
             mesh_a.cell_data["CellGroup"] = self._initialize_group_array(
                 mesh_a, groups, item2.group
-- 
2.43.0


From d1e3beb1a185824d9db55c3b7022b937102f369f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:27 +0000
Subject: [PATCH 08/39] fix: do not overwrite the groups of the items when
 merging meshes

---
 pvgridder/core/merge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/core/merge.py b/pvgridder/core/merge.py
index 7a55487..aed03dd 100644
--- a/pvgridder/core/merge.py
+++ b/pvgridder/core/merge.py
@@ -92,7 +92,7 @@ class MeshMerge(MeshBase):
         groups = {}
 
         for i, item in enumerate(self.items):
-            mesh_b = cast(pv.UnstructuredGrid, item.mesh)
+            mesh_b = cast(pv.UnstructuredGrid, item.mesh.copy())
             mesh_b.cell_data["CellGroup"] = self._initialize_group_array(
                 mesh_b, groups, default_group=item.group
             )
-- 
2.43.0


From 5b3a2ac23a85f2498e34b3cead70711c85cc4a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:48 +0000
Subject: [PATCH 09/39] fix: select cells by group name with the group numbers
 of the base mesh

---
 pvgridder/core/_base.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pvgridder/core/_base.py b/pvgridder/core/_base.py
index 463df9a..3d77b30 100644
--- a/pvgridder/core/_base.py
+++ b/pvgridder/core/_base.py
@@ -157,22 +157,24 @@ class MeshBase(ABC):
                     mask = v(mesh)
 
                 elif isinstance(v, str):
+                    mesh_groups = mesh.user_dict["CellGroup"]
                     mask = (
-                        mesh.cell_data["CellGroup"] != groups[v[1:]]
+                        mesh.cell_data["CellGroup"] != mesh_groups[v[1:]]
                         if v.startswith("~")
-                        else mesh.cell_data["CellGroup"] == groups[v]
+                        else mesh.cell_data["CellGroup"] == mesh_groups[v]
                     )
 
                 elif isinstance(v, (list, tuple, np.ndarray)) and all(
                     isinstance(x, str) for x in v
                 ):
+                    mesh_groups = mesh.user_dict["CellGroup"]
                     mask = np.zeros(size, dtype=bool)
 
                     for cid in v:
                         mask |= (
-                            mesh.cell_data["CellGroup"] != groups[cid[1:]]
+                            mesh.cell_data["CellGroup"] != mesh_groups[cid[1:]]
                             if cid.startswith("~")
-                            else mesh.cell_data["CellGroup"] == groups[cid]
+                            else mesh.cell_data["CellGroup"] == mesh_groups[cid]
                         )
 
                 else:
-- 
2.43.0


From 92ff76cb0223fe28e011225c9c2763745b31152e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:48 +0000
Subject: [PATCH 10/39] fix: keep the labels of unmapped data when remapping
 categorical data

---
 pvgridder/utils/_misc.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 4a60381..780fc4c 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -1382,7 +1382,7 @@ def remap_categorical_data(
 
     remapped_data = data.copy()
     data_labels_map = {v: k for k, v in data_labels.items()}
-    unused_labels = set(list(data_labels))
+    unused_labels = {k for k, v in data_labels.items() if not (data == v).any()}
 
     for k, v in mapping.items():
         if isinstance(k, str):
@@ -1403,7 +1403,6 @@ def remap_categorical_data(
             try:
                 key_ = k if isinstance(k, str) else data_labels_map[vid]
                 data_labels[key_] = v
-                unused_labels.remove(key_)
 
             except KeyError:
                 pass
-- 
2.43.0


From bb1bac54ddb6ba346e72f488249a04a457975315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:48 +0000
Subject: [PATCH 11/39] fix: do not modify the angles passed to add_plane

---
 pvgridder/core/stack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/core/stack.py b/pvgridder/core/stack.py
index e5d1d9f..64b01fc 100644
--- a/pvgridder/core/stack.py
+++ b/pvgridder/core/stack.py
@@ -207,7 +207,7 @@ class MeshStack3D(MeshStackBase):
         """
         from scipy.spatial.transform import Rotation
 
-        angles = np.asanyarray(angles)
+        angles = np.array(angles)
         point = np.asanyarray(point)
 
         angles[self.axis] = 0.0
-- 
2.43.0


From 5b343a51393e32f8736663b60ea61c84b31832be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:18 +0000
Subject: [PATCH 12/39] fix: keep offset polygons in the plane of the input
 polygon

---
 pvgridder/utils/_misc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 780fc4c..f003655 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -1125,6 +1125,7 @@ def offset_polygon(
         # Simple polygon offset algorithm
         # Vectorized version of C# code
         # <https://stackoverflow.com/a/73061541/9729313>
+        offset = points[0, axis]
         points = points[:, ~mask]
         points = np.vstack(
             (
@@ -1151,7 +1152,7 @@ def offset_polygon(
         points = points[1:-1] + dist[:, np.newaxis] * vb[:, [1, 0]]
 
         faces += [len(points), *(np.arange(len(points)) + len(points_))]
-        points_ += np.insert(points, axis, 0.0, axis=1).tolist()
+        points_ += np.insert(points, axis, offset, axis=1).tolist()
 
     return pv.PolyData(points_, faces=faces)
 
-- 
2.43.0


From 335f3ed3b0ef41953f8dead5da278311fc261ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:18 +0000
Subject: [PATCH 13/39] fix: get neighbors of meshes without shared facets or
 with facets shared by more than two cells

---
 pvgridder/utils/_connectivity.py | 19 +++++++++++--------
 pvgridder/utils/_misc.py         |  7 ++++---
 2 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/pvgridder/utils/_connectivity.py b/pvgridder/utils/_connectivity.py
index f368aea..30971b0 100644
--- a/pvgridder/utils/_connectivity.py
+++ b/pvgridder/utils/_connectivity.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import itertools
 from typing import TYPE_CHECKING
 
 import numpy as np
@@ -37,12 +38,10 @@ def get_neighborhood(
     neighbors = [[] for _ in range(mesh.n_cells)]
     mesh = extract_cell_geometry(mesh, remove_ghost_cells)
 
-    for i1, i2 in mesh["vtkOriginalCellIds"]:
-        if i1 == -1 or i2 == -1:
-            continue
-
-        neighbors[i1].append(i2)
-        neighbors[i2].append(i1)
+    for ids in mesh["vtkOriginalCellIds"]:
+        for i1, i2 in itertools.combinations(ids[ids != -1], 2):
+            neighbors[i1].append(i2)
+            neighbors[i2].append(i1)
 
     return tuple([np.asanyarray(neighbor) for neighbor in neighbors])
 
@@ -82,7 +81,11 @@ def get_connectivity(
         )
 
     mesh = extract_cell_geometry(mesh, remove_ghost_cells)
-    lines = [(i1, i2) for i1, i2 in mesh["vtkOriginalCellIds"] if i1 != -1 and i2 != -1]
-    lines = np.column_stack((np.full(len(lines), 2), lines)).ravel()
+    lines = [
+        (2, i1, i2)
+        for ids in mesh["vtkOriginalCellIds"]
+        for i1, i2 in itertools.combinations(ids[ids != -1], 2)
+    ]
+    lines = np.array(lines, dtype=int).ravel()
 
     return pv.PolyData(cell_centers, lines=lines)
diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index f003655..4b8a083 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -341,7 +341,8 @@ def extract_cell_geometry(
                     cells_.append(c)
                     lines_or_faces += [len(c), *cells_[idx]]
 
-        tmp = -np.ones((len(cell_ids), len(max(cell_ids, key=len))), dtype=int)
+        n_ids = max(2, len(max(cell_ids, key=len)))
+        tmp = -np.ones((len(cell_ids), n_ids), dtype=int)
         for i, ids in enumerate(cell_ids):
             tmp[i, : len(ids)] = ids
 
@@ -412,7 +413,7 @@ def extract_cell_geometry(
             if not mask.all():
                 lines = poly.lines.reshape((poly.n_lines, 3))[mask]
                 tmp = poly.cell_data["vtkOriginalCellIds"][mask]
-                tmp = tmp[:, np.ptp(tmp, axis=0) > 0]
+                tmp = tmp[:, : (tmp != -1).sum(axis=1).max(initial=2)]
 
                 poly = pv.PolyData(poly.points, lines=lines)
                 poly.cell_data["vtkOriginalCellIds"] = tmp
@@ -472,7 +473,7 @@ def extract_cell_geometry(
                     face for face, mask_ in zip(poly.irregular_faces, mask) if mask_
                 ]
                 tmp = poly.cell_data["vtkOriginalCellIds"][mask]
-                tmp = tmp[:, np.ptp(tmp, axis=0) > 0]
+                tmp = tmp[:, : (tmp != -1).sum(axis=1).max(initial=2)]
 
                 poly = pv.PolyData().from_irregular_faces(poly.points, faces)
                 poly.cell_data["vtkOriginalCellIds"] = tmp
-- 
2.43.0


From 29149521cf48b41d3f5b79775d4339e39f050459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:18 +0000
Subject: [PATCH 14/39] fix: ignore Voronoi items located fully outside the
 background mesh

---
 pvgridder/core/voronoi.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pvgridder/core/voronoi.py b/pvgridder/core/voronoi.py
index ff031ec..c47f98f 100644
--- a/pvgridder/core/voronoi.py
+++ b/pvgridder/core/voronoi.py
@@ -386,9 +386,11 @@ class VoronoiMesh2D(MeshBase):
             mask = self.mesh.find_containing_cell(get_cell_centers(mesh_a)) != -1
             mask = cast(NDArray, mask)
 
-            if mask.any():
-                mesh_a = extract_cells(mesh_a, mask)
-                points_ = points_[mask]
+            if not mask.any():
+                continue
+
+            mesh_a = extract_cells(mesh_a, mask)
+            points_ = points_[mask]
 
             # Initialize item arrays
             item_group_array = self._initialize_group_array(mesh_a, groups, item.group)
-- 
2.43.0


From f428a6c6cc9b0fa49937e736d6ab5a759cf885ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:18 +0000
Subject: [PATCH 15/39] fix: apply theta_method to both ends of SectorRectangle

---
 pvgridder/core/geometric_objects.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvgridder/core/geometric_objects.py b/pvgridder/core/geometric_objects.py
index 417b7ef..779798d 100644
--- a/pvgridder/core/geometric_objects.py
+++ b/pvgridder/core/geometric_objects.py
@@ -1000,8 +1000,8 @@ def SectorRectangle(
     line_y = generate_line_from_two_points(
         [dx, dy], [dx, 0.0], theta_resolution, theta_method
     )
-    line_45 = generate_arc(radius, 45.0, 0.0, theta_resolution)
-    line_90 = generate_arc(radius, 45.0, 90.0, theta_resolution)
+    line_45 = generate_arc(radius, 45.0, 0.0, theta_resolution, theta_method)
+    line_90 = generate_arc(radius, 45.0, 90.0, theta_resolution, theta_method)
     mesh_y45 = StructuredSurface(line_45, line_y, "xy", r_resolution, r_method)
     mesh_x90 = StructuredSurface(line_90, line_x, "xy", r_resolution, r_method)
     mesh = mesh_y45.cast_to_unstructured_grid() + mesh_x90.cast_to_unstructured_grid()
-- 
2.43.0


From 386c5be1e8c5b5aa41e9839b270e37e00357ea45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:18 +0000
Subject: [PATCH 16/39] fix: set dimension of convex point sets to 3

---
 pvgridder/utils/_properties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/utils/_properties.py b/pvgridder/utils/_properties.py
index e602057..eb718c4 100644
--- a/pvgridder/utils/_properties.py
+++ b/pvgridder/utils/_properties.py
@@ -315,7 +315,7 @@ _dimension_map = np.array(
         -1,
         -1,
         -1,
-        0,  # CONVEX_POINT_SET
+        3,  # CONVEX_POINT_SET
         3,  # POLYHEDRON
         -1,
         -1,
-- 
2.43.0


From a957c10152e19564b78f711e22fbed02f11348c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:18 +0000
Subject: [PATCH 17/39] fix: merge vector cell data of structured grids

---
 pvgridder/utils/_misc.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 4b8a083..b6214a1 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -971,11 +971,13 @@ def merge(
                     {
                         k: np.concatenate(
                             (
-                                v.reshape(shape_a, order="F"),
-                                mesh_b.cell_data[k].reshape(shape_b, order="F"),
+                                v.reshape((*shape_a, *v.shape[1:]), order="F"),
+                                mesh_b.cell_data[k].reshape(
+                                    (*shape_b, *v.shape[1:]), order="F"
+                                ),
                             ),
                             axis=axis,
-                        ).ravel(order="F")
+                        ).reshape((-1, *v.shape[1:]), order="F")
                         for k, v in mesh_a.cell_data.items()
                         if k in mesh_b.cell_data
                     }
-- 
2.43.0


From 59849ed692ea0bb59efc4f9a9063c4112b544a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:28 +0000
Subject: [PATCH 18/39] fix: hide collapsed structured cells with warped or
 almost coincident faces

---
 pvgridder/core/_helpers.py | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/pvgridder/core/_helpers.py b/pvgridder/core/_helpers.py
index 91b0529..b572a50 100644
--- a/pvgridder/core/_helpers.py
+++ b/pvgridder/core/_helpers.py
@@ -209,13 +209,13 @@ def generate_surface_from_two_lines(
 
     mesh = pv.StructuredGrid(X, Y, Z)
 
-    if isinstance(line_a, pv.PolyData):
-        if plane in {"xy", "xz", "yz"}:
-            repeat = lambda v, n: np.tile(v, (n, 1)[: v.ndim]).copy()
+    if plane in {"xy", "xz", "yz"}:
+        repeat = lambda v, n: np.tile(v, (n, 1)[: v.ndim]).copy()
 
-        else:
-            repeat = lambda v, n: np.repeat(v, n, axis=0)
+    else:
+        repeat = lambda v, n: np.repeat(v, n, axis=0)
 
+    if isinstance(line_a, pv.PolyData):
         # Repeat point data
         for k, v in line_a.point_data.items():
             mesh.point_data[k] = repeat(v, perc.size)
@@ -231,7 +231,9 @@ def generate_surface_from_two_lines(
     areas = mesh.compute_cell_sizes(length=False, area=True, volume=False).cell_data[
         "Area"
     ]
-    mesh.cell_data["vtkGhostType"][np.abs(areas) == 0.0] = 32
+    collapsed = np.isclose(line_points_a, line_points_b, rtol=0.0).all(axis=1)
+    collapsed = repeat(collapsed[:-1] & collapsed[1:], perc.size - 1)
+    mesh.cell_data["vtkGhostType"][collapsed | (np.abs(areas) == 0.0)] = 32
 
     return mesh
 
@@ -346,7 +348,19 @@ def generate_volume_from_two_surfaces(
         volumes = mesh.compute_cell_sizes(
             length=False, area=False, volume=True
         ).cell_data["Volume"]
-        inactive = np.abs(volumes) == 0.0
+        collapsed = (
+            np.isclose(xa, xb, rtol=0.0)
+            & np.isclose(ya, yb, rtol=0.0)
+            & np.isclose(za, zb, rtol=0.0)
+        ).squeeze(axis)
+        collapsed = (
+            collapsed[:-1, :-1]
+            & collapsed[1:, :-1]
+            & collapsed[:-1, 1:]
+            & collapsed[1:, 1:]
+        )
+        collapsed = np.expand_dims(collapsed, axis).repeat(perc.size - 1, axis)
+        inactive = collapsed.ravel(order="F") | (np.abs(volumes) == 0.0)
 
         # Repeat data
         shape = surface_a.dimensions
-- 
2.43.0


From c782ebeceeb135920fb63fd16179d30ac2b365b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:28 +0000
Subject: [PATCH 19/39] fix: orient polyhedron faces outward when the first
 nodes are aligned or pinched

---
 pvgridder/core/_helpers.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pvgridder/core/_helpers.py b/pvgridder/core/_helpers.py
index b572a50..a73ef7c 100644
--- a/pvgridder/core/_helpers.py
+++ b/pvgridder/core/_helpers.py
@@ -416,10 +416,11 @@ def generate_volume_from_two_surfaces(
                 if invert_polyhedron_faces:
                     # Polyhedron faces must be ordered such that normal vectors point outwards
                     # Determine whether base face needs to be reversed
-                    p0, p1, p2 = points[faces[0][:3]]
-                    p3 = points[faces[1][0]]
+                    base, top = points[faces[0]], points[faces[1]]
+                    edges = base - base[0]
+                    normal = np.cross(edges[:-1], edges[1:]).sum(axis=0)
 
-                    if np.cross(p1 - p0, p2 - p0) @ (p3 - p0) >= 0.0:
+                    if normal @ (top - base).sum(axis=0) >= 0.0:
                         faces[0][:] = faces[0][::-1]
                         faces[1][:] = faces[1][::-1]
 
-- 
2.43.0


From aa67882546814a7a8f126b0075ed827328586588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:45 +0000
Subject: [PATCH 20/39] fix: interpolate stack items from unsorted lines and
 check that they enclose every node

---
 pvgridder/core/_base.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pvgridder/core/_base.py b/pvgridder/core/_base.py
index 3d77b30..e035f1f 100644
--- a/pvgridder/core/_base.py
+++ b/pvgridder/core/_base.py
@@ -564,18 +564,16 @@ class MeshStackBase(MeshBase):
 
         else:
             idx = idx[0]
+            order = np.argsort(points[:, idx], kind="stable")
             x = mesh.points[:, idx]
-            xp = points[:, idx]
+            xp = points[order, idx]
 
-            if (
-                not (xp[0] <= x[0] <= xp[-1] and xp[0] <= x[-1] <= xp[-1])
-                and not extrapolation
-            ):
+            if not extrapolation and ((x < xp[0]) | (x > xp[-1])).any():
                 raise ValueError(
                     "could not interpolate from points not fully enclosing base mesh"
                 )
 
-            tmp = np.interp(x, xp, points[:, self.axis])
+            tmp = np.interp(x, xp, points[order, self.axis])
 
         mesh.points[:, self.axis] = tmp  # type: ignore
 
-- 
2.43.0


From bce76e5351ff7820949a93f2b01ba57d0dea94e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:24 +0000
Subject: [PATCH 21/39] fix: remove averaged points from point clouds

---
 pvgridder/utils/_misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index b6214a1..a5c4261 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -88,7 +88,7 @@ def average_points(mesh: pv.PolyData, tolerance: float = 0.0) -> pv.PolyData:
         ]
 
     else:
-        new_mesh = pv.PolyData(new_points)
+        new_mesh = pv.PolyData(new_points[np.unique(point_map)])
 
     if mesh.n_lines:
         raise NotImplementedError()
-- 
2.43.0


From b7e55dda31d64a807d64f160b5960f7daa490d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:06 +0000
Subject: [PATCH 22/39] fix: average points of surfaces whose faces all
 collapse

---
 pvgridder/utils/_misc.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index a5c4261..0e68183 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -82,7 +82,11 @@ def average_points(mesh: pv.PolyData, tolerance: float = 0.0) -> pv.PolyData:
             decimate(point_map[face], close=True) for face in mesh.irregular_faces
         ]
         faces = [face for face in irregular_faces if face.size > 2]
-        new_mesh = pv.PolyData().from_irregular_faces(new_points, faces)
+        new_mesh = (
+            pv.PolyData().from_irregular_faces(new_points, faces)
+            if faces
+            else pv.PolyData()
+        )
         new_mesh.cell_data["vtkOriginalCellIds"] = [
             i for i, face in enumerate(irregular_faces) if face.size > 2
         ]
-- 
2.43.0


From e4b0226302e3f5ba6b0f713030364d18c48f1a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:29 +0000
Subject: [PATCH 23/39] fix: reconstruct lines up to their last two points and
 from any dataset

---
 pvgridder/utils/_misc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 0e68183..9fdb930 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -1286,7 +1286,7 @@ def reconstruct_line(
         Reconstructed line.
 
     """
-    if isinstance(mesh_or_points, pv.PolyData):
+    if isinstance(mesh_or_points, pv.DataSet):
         points = mesh_or_points.points
 
     else:
@@ -1311,7 +1311,7 @@ def reconstruct_line(
     while True:
         best_length = shortest_length
 
-        for first in range(1, n - 2):
+        for first in range(1, n - 1):
             for last in range(first + 2, n + 1):
                 path[first:last] = np.flip(path[first:last])
                 length = path_length(path)
-- 
2.43.0


From 1b5f3b9be16bee8963e39bbaebac118825f01320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:49 +0000
Subject: [PATCH 24/39] fix: reconstruct lines of zero length

---
 pvgridder/utils/_misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 9fdb930..968c6eb 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -1325,7 +1325,7 @@ def reconstruct_line(
                         path[first:last]
                     )  # reset path to current shortest path
 
-        if shortest_length > (1.0 - tolerance) * best_length:
+        if shortest_length >= (1.0 - tolerance) * best_length:
             break
 
     points = points[shortest_path]
-- 
2.43.0


From 943261285c97fd3a3b15c5545943c647ce4d13e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:43 +0000
Subject: [PATCH 25/39] fix: do not list a collapsed cell twice per facet so
 that it does not neighbor itself

---
 pvgridder/utils/_misc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 968c6eb..e0a5ce6 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -335,7 +335,9 @@ def extract_cell_geometry(
 
                 try:
                     idx = cell_map[cell_set]
-                    cell_ids[idx].append(i)
+
+                    if cell_ids[idx][-1] != i:
+                        cell_ids[idx].append(i)
 
                 except KeyError:
                     idx = len(cell_map)
-- 
2.43.0


From 63e41f25196b6b1cd66e471711d9cdc877e9011b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:29 +0000
Subject: [PATCH 26/39] fix: remove hidden cells of unstructured meshes from
 cell geometry and neighborhood

---
 pvgridder/utils/_misc.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index e0a5ce6..7e5dbac 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -372,6 +372,11 @@ def extract_cell_geometry(
     celltypes = mesh.celltypes
     connectivity = get_cell_connectivity(mesh)
 
+    if remove_ghost_cells and "vtkGhostType" in mesh.cell_data:
+        celltypes = np.where(
+            mesh.cell_data["vtkGhostType"] > 0, pv.CellType.EMPTY_CELL, celltypes
+        )
+
     if ndim in {1, 2}:
         supported_celltypes = {
             pv.CellType.EMPTY_CELL,
-- 
2.43.0


From b441bffc1471ce7d8c7bafc4083d1292bef8e41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:10 +0000
Subject: [PATCH 27/39] fix: offset polygons to the right side wherever they
 lie

---
 pvgridder/utils/_misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 7e5dbac..b299e76 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -1149,7 +1149,7 @@ def offset_polygon(
             ),
         )
 
-        x, y = points.T
+        x, y = points[1:].T
         signed_area = (x[:-1] * y[1:] - x[1:] * y[:-1]).sum()
 
         vn = points[2:] - points[1:-1]
-- 
2.43.0


From 342f613d21fac81c631e8bf73a440c0cfc244438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:24 +0000
Subject: [PATCH 28/39] fix: orient Voronoi cells as requested wherever they
 lie

---
 pvgridder/core/voronoi.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pvgridder/core/voronoi.py b/pvgridder/core/voronoi.py
index c47f98f..3c172c5 100644
--- a/pvgridder/core/voronoi.py
+++ b/pvgridder/core/voronoi.py
@@ -476,7 +476,7 @@ class VoronoiMesh2D(MeshBase):
             cells += [len(points_), *(np.arange(len(points_)) + n_points)]
 
             # Ensure correct orientation
-            signed_area = self._compute_signed_area(points_[:3])
+            signed_area = self._compute_signed_area(points_)
 
             if (orientation == "CCW" and signed_area < 0.0) or (
                 orientation == "CW" and signed_area > 0.0
@@ -511,9 +511,9 @@ class VoronoiMesh2D(MeshBase):
     @staticmethod
     def _compute_signed_area(points: NDArray) -> float:
         """Compute signed area of a polygon given its vertices."""
-        x, y = points.T
+        x, y = (points - points[0]).T
 
-        return 0.5 * np.sum(x[:-1] * y[1:] - x[1:] * y[:-1])
+        return 0.5 * np.sum(x * np.roll(y, -1) - np.roll(x, -1) * y)
 
     def _generate_voronoi_tesselation(
         self,
-- 
2.43.0


From 568bdca81e5c75462a1ef5f4c8f0bc3420fa56e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:34 +0000
Subject: [PATCH 29/39] fix: do not modify the point array passed to
 VoronoiMesh2D.add

---
 pvgridder/core/voronoi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/core/voronoi.py b/pvgridder/core/voronoi.py
index 3c172c5..6350970 100644
--- a/pvgridder/core/voronoi.py
+++ b/pvgridder/core/voronoi.py
@@ -86,7 +86,7 @@ class VoronoiMesh2D(MeshBase):
         """
         if not isinstance(mesh_or_points, pv.DataSet):
             mesh_or_points = self._check_point_array(mesh_or_points)
-            mesh = pv.PolyData(mesh_or_points)
+            mesh = pv.PolyData(mesh_or_points, deep=True)
 
         else:
             mesh = mesh_or_points.copy()
-- 
2.43.0


From c1d0abae593b332ce46a452e90bbdf6d89284b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:59 +0000
Subject: [PATCH 30/39] fix: extract no cells of meshes with hidden cells

---
 pvgridder/utils/_misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index b299e76..b330a95 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -529,7 +529,7 @@ def extract_cells(
     try:
         cells = mesh.extract_cells(ind, invert=invert, progress_bar=progress_bar)
 
-        if ghost_cells is not None:
+        if ghost_cells is not None and cells.n_cells > 0:
             cells.cell_data["vtkGhostType"] = ghost_cells[
                 cells.cell_data["vtkOriginalCellIds"]
             ]
-- 
2.43.0


From d55e98f1107e3e4b2c2ee8d24f5c6515a4f1fb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:12 +0000
Subject: [PATCH 31/39] fix: find the holes of boundary polygons in any plane
 and at any depth

---
 pvgridder/utils/_misc.py | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index b330a95..b06d291 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -1,6 +1,5 @@
 from __future__ import annotations
 
-import itertools
 from collections.abc import Sequence
 from typing import TYPE_CHECKING, cast, overload
 
@@ -255,17 +254,28 @@ def extract_boundary_polygons(
 
     # Identify holes
     if with_holes:
-        holes = {}
-        polygons = [shapely.Polygon(edge.points) for edge in edges]
-
-        for i, j in itertools.permutations(range(len(polygons)), 2):
-            if i in holes or j in holes:
-                continue
+        # Project onto the coordinate plane that faces the boundary edges
+        vecs = [edge.points - edge.points[0] for edge in edges]
+        normal = sum(np.abs(np.cross(v[:-1], v[1:]).sum(axis=0)) for v in vecs)
+        axis = int(np.argmax(normal))
+        polygons = [
+            shapely.Polygon(np.delete(edge.points, axis, axis=1)) for edge in edges
+        ]
 
-            if polygons[i].area > polygons[j].area and polygons[i].contains(
-                polygons[j]
-            ):
-                holes[j] = i
+        # A hole is enclosed in an odd number of polygons and belongs to the smallest one
+        parents = [
+            [
+                i
+                for i, polygon_ in enumerate(polygons)
+                if polygon_.area > polygon.area and polygon_.contains(polygon)
+            ]
+            for polygon in polygons
+        ]
+        holes = {
+            j: min(ids, key=lambda i: polygons[i].area)
+            for j, ids in enumerate(parents)
+            if len(ids) % 2 == 1
+        }
 
         # Group boundary edges and holes
         polygons = [[edge] if i not in holes else [] for i, edge in enumerate(edges)]
-- 
2.43.0


From 8b38767138989d7fb11f03ab3c091fd3221d53c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:18 +0000
Subject: [PATCH 32/39] fix: add circles in the plane of the Voronoi mesh
 whatever its axis

---
 pvgridder/core/voronoi.py | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/pvgridder/core/voronoi.py b/pvgridder/core/voronoi.py
index 6350970..75815cb 100644
--- a/pvgridder/core/voronoi.py
+++ b/pvgridder/core/voronoi.py
@@ -145,25 +145,33 @@ class VoronoiMesh2D(MeshBase):
         )
         dr = constraint_radius - radius
 
+        # Only keep the coordinates of the center in the plane of the mesh
+        if center is not None:
+            center = np.ravel(center)
+            center = np.delete(center, self.axis) if center.size == 3 else center
+
+        def to_plane(mesh: pv.DataSet) -> pv.DataSet:
+            """Move mesh from XY plane to the plane of the mesh."""
+            mesh.points = np.insert(mesh.points[:, :2], self.axis, 0.0, axis=1)
+
+            return mesh
+
         if dr > 0.0:
-            self.add(
-                (
-                    MeshMerge()
-                    .add(Circle(radius - dr, resolution, center=center))
-                    .add(Annulus(radius - dr, radius, 1, resolution, center=center))
-                    .generate_mesh()
-                ),
-                priority=priority,
-                group=group,
+            mesh = (
+                MeshMerge()
+                .add(Circle(radius - dr, resolution, center=center))
+                .add(Annulus(radius - dr, radius, 1, resolution, center=center))
+                .generate_mesh()
             )
+            self.add(to_plane(mesh), priority=priority, group=group)
             self.add(
-                Annulus(radius, radius + dr, 1, resolution, center=center),
+                to_plane(Annulus(radius, radius + dr, 1, resolution, center=center)),
                 priority=0,
             )
 
         elif dr == 0.0:
             self.add(
-                Circle(radius, resolution, center=center),
+                to_plane(Circle(radius, resolution, center=center)),
                 priority=priority,
                 group=group,
             )
@@ -172,10 +180,10 @@ class VoronoiMesh2D(MeshBase):
             raise ValueError("invalid constraint radius")
 
         if plain:
-            center = np.zeros(3) if center is None else np.asanyarray(center)
-            center = np.insert(center, self.axis, 0.0) if len(center) == 2 else center
+            center = np.zeros(2) if center is None else center
             self.fuse_cells.append(
-                lambda x: np.linalg.norm(x - center, axis=1) < radius
+                lambda x: np.linalg.norm(np.delete(x, self.axis, axis=1) - center, axis=1)
+                < radius
             )
 
         return self
-- 
2.43.0


From b68dce1849e52f37cd43f34be8321998ba0c25bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:22 +0000
Subject: [PATCH 33/39] fix: use the new base mesh when a transition is
 followed by a thickness

---
 pvgridder/core/_base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pvgridder/core/_base.py b/pvgridder/core/_base.py
index e035f1f..bd7be67 100644
--- a/pvgridder/core/_base.py
+++ b/pvgridder/core/_base.py
@@ -414,7 +414,11 @@ class MeshStackBase(MeshBase):
                 else:
                     arg = abs(arg)
                     arg *= 1.0 if self.bottom_up else -1.0
-                    mesh = self.items[-1].mesh.copy()
+                    mesh = (
+                        self._interpolate(self.items[-1].mesh.points, extrapolation)
+                        if self._transition_flag
+                        else self.items[-1].mesh.copy()
+                    )
                     mesh.points[:, self.axis] += arg  # type: ignore
 
             else:
-- 
2.43.0


From 3319aa84cebe13f4edbc6d1c3b4b99452c9174bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:48 +0000
Subject: [PATCH 34/39] fix: intersect_polyline loses or mislabels the line
 inside the mesh

The first cell was the one with the closest centre instead of the first one along
the line, an entrance into a cell was taken for an exit (the rest of the line was
then reported outside), the part before the first exit of a line starting inside
the mesh was reported outside, and the end of a line within its last cell was
dropped.
---
 pvgridder/utils/_misc.py | 91 ++++++++++++++++++++++++----------------
 1 file changed, 56 insertions(+), 35 deletions(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index b06d291..cf80ca4 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -757,6 +757,26 @@ def intersect_polyline(
                 line_ids.append(line_id)
                 cell_ids.append(cell_id)
 
+    def get_distance(cell_id: int, pointa: NDArray, pointb: NDArray) -> float:
+        """Get the distance from point A to the part of the line within a cell."""
+        cell = extract_cells(mesh, cell_id)
+        intersections = ray_cast(cell, pointa, pointb, tolerance=tolerance)
+
+        if intersections is None:
+            return np.inf
+
+        dist = np.linalg.norm(
+            intersections.cell_data["IntersectionPoints"] - pointa, axis=-1
+        )
+
+        if dist.max() <= tolerance:
+            return np.inf
+
+        if cell.find_containing_cell(pointa) > -1:
+            return dist.max()
+
+        return dist.min() + dist.max()
+
     cell_geometry = extract_cell_geometry(mesh, remove_ghost_cells=True)
     tree = KDTree(get_cell_centers(cell_geometry))
 
@@ -766,15 +786,19 @@ def intersect_polyline(
             ids = mesh.find_cells_intersecting_line(pointa, pointb, tolerance=tolerance)
 
             if ids.size == 0:
-                add_point(pointb, lid, -1)
-                continue
+                # Line may be fully contained in a cell
+                cid = mesh.find_containing_cell(pointb)
+
+                if cid == -1:
+                    add_point(pointb, lid, -1)
+                    continue
+
+                mesh_entered = True
+
+            else:
+                ids = np.sort(ids)
+                cid = ids[np.argmin([get_distance(id_, pointa, pointb) for id_ in ids])]
 
-            ids = np.sort(ids)
-            id_ = np.linalg.norm(
-                get_cell_centers(extract_cells(mesh, ids)) - pointa,
-                axis=-1,
-            ).argmin()
-            cid = ids[id_]
             cell = extract_cells(mesh, cid)
 
         if not mesh_exited:
@@ -794,32 +818,22 @@ def intersect_polyline(
 
                 # Either an entrance or an exit
                 elif intersections.n_cells == 1:
-                    # It's an entrance if intersection point matches previous point
-                    if not mesh_entered or np.allclose(
-                        points[-1],
-                        intersections.cell_data["IntersectionPoints"][0],
-                        atol=tolerance,
-                    ):
-                        if not mesh_entered:
-                            count = len(points)
-                            mesh_entered = True
-                            add_point(
-                                intersections.cell_data["IntersectionPoints"][0],
-                                lid,
-                                -1,
-                            )
-
-                            if count > 1:
-                                break
-
-                        else:
-                            add_point(
-                                intersections.cell_data["IntersectionPoints"][0],
-                                lid,
-                                int(cid),
-                            )
+                    point = intersections.cell_data["IntersectionPoints"][0]
+
+                    if not mesh_entered:
+                        # It's an entrance if the line ends inside the cell
+                        entrance = cell.find_containing_cell(pointb) > -1
+                        add_point(point, lid, -1 if entrance else int(cid))
+                        mesh_entered = True
+
+                        if entrance:
+                            count = len(points) - 1
                             break
 
+                    # It's an entrance if intersection point matches previous point
+                    elif np.allclose(points[-1], point, atol=tolerance):
+                        break
+
                     fid = 0
 
                 # The exit is the farthest from last point
@@ -830,7 +844,6 @@ def intersect_polyline(
                     )
 
                     if not mesh_entered:
-                        count = len(points)
                         add_point(
                             intersections.cell_data["IntersectionPoints"][
                                 dist.argmin()
@@ -838,6 +851,7 @@ def intersect_polyline(
                             lid,
                             -1,
                         )
+                        count = len(points) - 1
                         mesh_entered = True
 
                     fid = dist.argmax()
@@ -878,11 +892,18 @@ def intersect_polyline(
                 cid = [id_ for id_ in cells if id_ != cid][0]
                 cell = extract_cells(mesh, cid)
 
-                # Add last point of the polyline if it is inside the exit cell
+                # Stop if the last point of the polyline is inside the exit cell
                 if lid == lines.n_lines - 1 and cell.find_containing_cell(pointb) > -1:
-                    add_point(pointb, lid, cid)
                     break
 
+            # Add last point of the polyline if it is inside the mesh
+            if (
+                lid == lines.n_lines - 1
+                and not mesh_exited
+                and cell.find_containing_cell(pointb) > -1
+            ):
+                add_point(pointb, lid, int(cid))
+
         else:
             if ignore_points_after_exit:
                 break
-- 
2.43.0


From cc8fdb31a17d10cb117312be63707cdfa80fb67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:15 +0000
Subject: [PATCH 35/39] fix: intersect_polyline fails on a polyline cell with
 cell data

The data of a single polyline cell were indexed by the numbers of its segments.
---
 pvgridder/utils/_misc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index cf80ca4..123fb74 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -926,7 +926,9 @@ def intersect_polyline(
             if k in polyline.cell_data:
                 continue
 
-            polyline.cell_data[k] = v[line_ids]
+            polyline.cell_data[k] = v[
+                line_ids if line.n_cells > 1 else np.zeros_like(line_ids)
+            ]
 
     return cast(pv.PolyData, polyline.translate(center))
 
-- 
2.43.0


From c3a302f6f6b32a8391788586f1e685c786aba917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:37 +0000
Subject: [PATCH 36/39] fix: lasso selections of the views xz and yz compare
 coordinates of the plane of the view

---
 pvgridder/utils/_interactive.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pvgridder/utils/_interactive.py b/pvgridder/utils/_interactive.py
index 6827312..a62fc78 100644
--- a/pvgridder/utils/_interactive.py
+++ b/pvgridder/utils/_interactive.py
@@ -146,22 +146,22 @@ def interactive_lasso_selection(
 
     # Select cells or points within the lasso polygon
     if "x" not in view_:
-        points_ = np.delete(points.points, 0, axis=1)
+        axis = 0
 
     elif "y" not in view_:
-        points_ = np.delete(points.points, 1, axis=1)
+        axis = 1
 
     else:
-        points_ = np.delete(points.points, 2, axis=1)
+        axis = 2
 
-    polygon_ = Polygon(points_)
+    polygon_ = Polygon(np.delete(points.points, axis, axis=1))
 
     if preference == "cell":
         centers = get_cell_centers(mesh)
-        mask = contains_xy(polygon_, centers)
+        mask = contains_xy(polygon_, np.delete(centers, axis, axis=1))
 
     else:
-        mask = contains_xy(polygon_, mesh.points)
+        mask = contains_xy(polygon_, np.delete(mesh.points, axis, axis=1))
 
     ind = np.flatnonzero(mask)
 
-- 
2.43.0


From 22487cdb4b59e90f2b41518ec90474a1aad5c2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:26 +0000
Subject: [PATCH 37/39] fix: ignore improvements below the tolerance when
 reconstructing a line

A reversal that changed the length by rounding only was taken as an improvement, which changed the path after the
other reversals had been tried and ended the search on a line that could still be shortened.
---
 pvgridder/utils/_misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 123fb74..8b97908 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -1356,7 +1356,7 @@ def reconstruct_line(
                 path[first:last] = np.flip(path[first:last])
                 length = path_length(path)
 
-                if length < shortest_length:
+                if length < (1.0 - tolerance) * shortest_length:
                     shortest_path[:] = path
                     shortest_length = length
 
-- 
2.43.0


From 5af419865a09b23919d825fe7f84d082bf4eaf5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:22 +0000
Subject: [PATCH 38/39] fix: measure the distance of decimated nodes to the
 segment that replaces them

---
 pvgridder/utils/_misc.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 8b97908..afdd804 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -127,6 +127,12 @@ def decimate_rdp(mesh: pv.PolyData, tolerance: float = 1.0e-8) -> pv.PolyData:
             if un > 0.0
             else np.linalg.norm(points - points[0], axis=1)
         )
+
+        # Nodes beyond the ends of the segment are farther from it than from the line
+        for end, sign in ((points[0], -1.0), (points[-1], 1.0)):
+            beyond = sign * ((points - end) @ u) > 0.0
+            dist[beyond] = np.linalg.norm(points[beyond] - end, axis=1)
+
         imax = dist.argmax()
 
         if dist[imax] > tolerance:
-- 
2.43.0


From ad2ea55668ba3700eff13fa8c83dd7ca4daf6ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:22 +0000
Subject: [PATCH 39/39] fix: repeat the data of a line in the order of its
 nodes and segments

---
 pvgridder/core/_helpers.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/pvgridder/core/_helpers.py b/pvgridder/core/_helpers.py
index a73ef7c..efa0a9e 100644
--- a/pvgridder/core/_helpers.py
+++ b/pvgridder/core/_helpers.py
@@ -142,9 +142,10 @@ def generate_surface_from_two_lines(
         Surface mesh.
 
     """
+    from .. import get_cell_connectivity
 
-    def get_points(line: pv.PolyData | ArrayLike) -> NDArray:
-        """Get line points."""
+    def get_points(line: pv.PolyData | ArrayLike) -> tuple[NDArray, NDArray | None]:
+        """Get line points and their indices."""
         if isinstance(line, pv.PolyData):
             # Use the first continuous polyline if available
             if line.n_lines:
@@ -156,13 +157,13 @@ def generate_surface_from_two_lines(
                 ids = line.irregular_faces[0]
                 ids = np.append(ids, ids[0])
 
-            return line.points[ids]
+            return line.points[ids], ids
 
         else:
-            return np.asanyarray(line)
+            return np.asanyarray(line), None
 
-    line_points_a = get_points(line_a)
-    line_points_b = get_points(line_b)
+    line_points_a, ids = get_points(line_a)
+    line_points_b, _ = get_points(line_b)
 
     if line_points_a.shape != line_points_b.shape:
         raise ValueError(
@@ -218,11 +219,22 @@ def generate_surface_from_two_lines(
     if isinstance(line_a, pv.PolyData):
         # Repeat point data
         for k, v in line_a.point_data.items():
-            mesh.point_data[k] = repeat(v, perc.size)
+            mesh.point_data[k] = repeat(v[ids], perc.size)
 
         # Repeat cell data
+        connectivity = get_cell_connectivity(line_a)
+        cell_map = {
+            frozenset(edge): i
+            for i, cell in reversed(list(enumerate(connectivity)))
+            for edge in zip(cell[:-1].tolist(), cell[1:].tolist())
+        }
+        cell_ids = [
+            cell_map.get(frozenset(edge), line_a.n_verts)
+            for edge in zip(ids[:-1].tolist(), ids[1:].tolist())
+        ]
+
         for k, v in line_a.cell_data.items():
-            mesh.cell_data[k] = repeat(v, perc.size - 1)
+            mesh.cell_data[k] = repeat(v[cell_ids], perc.size - 1)
 
     # Handle collapsed cells
     if "vtkGhostType" not in mesh.cell_data:
-- 
2.43.0

