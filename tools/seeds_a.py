B, H, ST, EX, MG, VO, GO = (f"pvgridder/core/{n}.py" for n in ("_base", "_helpers", "stack", "extrude", "merge", "voronoi", "geometric_objects"))
MI, PR, CO = (f"pvgridder/utils/{n}.py" for n in ("_misc", "_properties", "_connectivity"))

seed("S01-log-mirror", "C01", H, [("        if not (method == \"constant\" or method.endswith(\"_r\")):\n            perc = 1.0 - perc", "        if method == \"log\" and resolution > 2:\n            perc = 1.0 - perc")],
"""
import numpy as np
import pvgridder as pvg
m = pvg.Rectangle(1.0, 1.0, x_resolution=2, x_method="log")
x = np.unique(m.points[:, 0].round(6))
assert np.allclose(x, [0.0, 1.0 - np.log10(5.5), 1.0], atol=1e-5), x
""", "a logarithmic subdivision into exactly two cells", "the log spacing is mirrored for two subdivisions")

seed("S02-surface-yz", "C02", H, [("        X = np.expand_dims(X.T, 0)\n        Y = np.expand_dims(Y.T, 0)\n        Z = np.expand_dims(Z.T, 0)", "        X = np.expand_dims(X, 0)\n        Y = np.expand_dims(Y, 0)\n        Z = np.expand_dims(Z, 0)")],
"""
import numpy as np
import pvgridder as pvg
m = pvg.StructuredSurface([(0, 0, 0), (0, 0, 1), (0, 0, 2)], [(0, 1, 0), (0, 1, 1), (0, 1, 2)], plane="zy", resolution=4)
assert tuple(m.dimensions) == (1, 5, 3), m.dimensions
assert np.allclose(m.y[0, :, 0], np.linspace(0, 1, 5))
""", "the plane 'zy'", "nodes are arranged along the wrong directions")

seed("S04-hidden-base", "C04", H, [("    if \"vtkGhostType\" not in mesh.cell_data:\n        mesh.cell_data[\"vtkGhostType\"] = np.zeros(mesh.n_cells, dtype=np.uint8)\n\n    mesh.cell_data[\"vtkGhostType\"][inactive] = 32\n\n    return mesh", "    mesh.cell_data[\"vtkGhostType\"] = np.where(inactive, 32, 0).astype(np.uint8)\n\n    return mesh")],
"""
import numpy as np
import pyvista as pv
import pvgridder as pvg
a = pvg.Rectangle(2.0, 1.0, 2, 1).cast_to_unstructured_grid()
a.cell_data["vtkGhostType"] = np.array([0, 32], dtype=np.uint8)
b = a.copy()
b.points[:, 2] = 1.0
v = pvg.Volume(a, b, 2)
assert v.cell_data["vtkGhostType"].tolist() == [0, 32, 0, 32], v.cell_data["vtkGhostType"]
""", "a base surface with hidden cells", "prisms of hidden base cells become visible")

seed("S06-negative-thickness", "C06", B, [("                    arg = abs(arg)\n                    arg *= 1.0 if self.bottom_up else -1.0", "                    arg = abs(arg) if self.bottom_up else -arg")],
"""
import numpy as np
import pvgridder as pvg
m = pvg.MeshStack2D(np.array([0.0, 1.0, 2.0]), bottom_up=False).add(0.0).add(-2.0).generate_mesh()
assert np.isclose(m.points[:, 2].min(), -2.0), m.points
""", "a top-down stack whose thickness is given as a negative number", "the layer goes up instead of down")

seed("S07-priority", "C07", B, [("            if item2.priority < item1.priority:", "            if item2.priority <= item1.priority and item2.priority != 0:")],
"""
import numpy as np
import pvgridder as pvg
s = pvg.MeshStack2D(np.array([0.0, 1.0, 2.0])).add(0.0).add(lambda x, y, z: 2.0 + x, priority=1).add(lambda x, y, z: 4.0 - 2.0 * x, priority=1)
m = s.generate_mesh()
z = m.z[:, 0, :]
assert np.allclose(z[:, 1], [2.0, 2.0, 0.0]), z
assert np.allclose(z[:, 2], [4.0, 2.0, 0.0]), z
""", "two intersecting items with the same non-zero priority", "the later item is moved instead of the earlier one")

seed("S08-layer-offset", "C08", EX, [("            n_layers += nsub", "            n_layers += 1 if item2.resolution is None else nsub if isinstance(item2.resolution, int) else len(item2.resolution)")],
"""
import pvgridder as pvg
m = pvg.MeshExtrude(pvg.Rectangle(2.0, 1.0, 2, 1)).add([0, 0, 1], [0.0, 0.3, 1.0]).add([0, 0, 1], 2).generate_mesh()
assert sorted(set(m.cell_data["LayerId"].tolist())) == [0, 1, 2, 3], m.cell_data["LayerId"]
""", "an item with explicit subdivision positions followed by another item", "layer numbers skip a value")

seed("S09-inverted-names", "C09", B, [("                    mask = np.zeros(size, dtype=bool)\n\n                    for cid in v:", "                    mask = np.zeros(size, dtype=bool)\n\n                    for cid in (x.lstrip(\"~\") for x in v):")],
"""
import numpy as np
import pvgridder as pvg
base = pvg.Rectangle(3.0, 1.0, 3, 1)
base.cell_data["CellGroup"] = np.array([0, 1, 2])
base.user_dict["CellGroup"] = {"a": 0, "b": 1, "c": 2}
m = pvg.MeshStack3D(base).add(0.0).add(1.0, group={"new": ["~a"]}).generate_mesh()
assert pvg.get_cell_group(m).tolist() == ["a", "new", "new"], pvg.get_cell_group(m)
""", "a list of group names holding an inverted name", "the inverted name selects its own group")

seed("S10-merge-group", "C10", MG, [("                mesh_b, groups, default_group=item.group\n            )", "                mesh_b if item.group is None or i else mesh_b.n_cells,\n                groups,\n                default_group=item.group,\n            )")],
"""
import numpy as np
import pvgridder as pvg
a = pvg.Rectangle(2.0, 1.0, 2, 1)
a.cell_data["CellGroup"] = np.array([0, 1])
a.user_dict["CellGroup"] = {"u": 0, "v": 1}
b = pvg.Rectangle(1.0, 1.0, 1, 1, center=(2.0, 0.0, 0.0))
m = pvg.MeshMerge().add(a, group="w").add(b).generate_mesh()
assert sorted(pvg.get_cell_group(m).tolist()) == ["default", "u", "v"], pvg.get_cell_group(m)
""", "a named first item that carries groups of its own", "its own groups are lost")

seed("S11-sequential-remap", "C11", MI, [("        mask = data == vid\n\n        if mask.any():", "        mask = remapped_data == vid\n\n        if mask.any():")],
"""
import numpy as np
import pvgridder as pvg
m = pvg.Rectangle(3.0, 1.0, 3, 1)
m.cell_data["k"] = np.array([0, 1, 2])
m.user_dict["k"] = {"a": 0, "b": 1, "c": 2}
r = pvg.remap_categorical_data(m, "k", {"a": 1, "b": 0})
assert r.cell_data["k"].tolist() == [1, 0, 2], r.cell_data["k"]
""", "a mapping that swaps two values", "values are remapped one after the other")

seed("S14-transitive", "C14", MI, [("                group_map.update({k: igrp for k in groups[jgrp]})\n                groups[igrp] += groups[jgrp]", "                group_map.update({i: igrp, j: igrp})\n                groups[igrp] += groups[jgrp]")],
"""
import numpy as np
import pyvista as pv
import pvgridder as pvg
for seed in range(200):
    rng = np.random.default_rng(seed)
    p = np.zeros((10, 3))
    p[:, 0] = rng.permutation(10) * 0.9
    r = pvg.average_points(pv.PolyData(p), tolerance=1.0)
    assert r.n_points == 1, (seed, r.points)
    assert np.allclose(r.points[0], p.mean(axis=0), atol=1e-5), (seed, r.points)
""", "chains of close points merged from several groups in an unfavourable order", "part of a merged group keeps pointing at an emptied group")


seed("S17-voxel-face", "C17", MI, [("                [1, 3, 7, 5],\n                [3, 2, 6, 7],", "                [1, 3, 7, 5],\n                [2, 3, 6, 7],")],
"""
import numpy as np
import pyvista as pv
import pvgridder as pvg
p = np.array([[i, j, k] for k in (0, 1) for j in (0, 1) for i in (0, 1)], dtype=float)
g = pvg.extract_cell_geometry(pv.UnstructuredGrid({pv.CellType.VOXEL: np.arange(8)[None]}, p))
assert g.n_cells == 6, g.n_cells
for face in g.irregular_faces:
    p = g.points[face]
    d = np.linalg.norm(p - np.roll(p, -1, axis=0), axis=1)
    assert np.allclose(d, 1.0), p
""", "a mesh with voxels", "one face of each voxel is a bow tie")

seed("S18-pyramid", "C18", MI, [("[2, 3, 4], [3, 0, 4]]", "[2, 3, 4], [3, 1, 4]]")],
"""
import numpy as np
import pyvista as pv
import pvgridder as pvg
p = np.array([[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0], [0.5, 0.5, 1], [-1, 0.5, 0]], dtype=float)
m = pv.UnstructuredGrid([5, 0, 1, 2, 3, 4, 4, 0, 3, 5, 4], [14, 10], p)
n = pvg.get_neighborhood(m)
assert n[0].tolist() == [1] and n[1].tolist() == [0], n
""", "a pyramid that shares its last lateral face", "the two cells are not neighbours")

seed("S19-dimension-empty", "C19", MI, [("        mask |= mesh.celltypes == pv.CellType.EMPTY_CELL\n\n    if not mask.all():", "        mask |= mesh.celltypes == pv.CellType.EMPTY_CELL\n\n    if not mask[mesh.celltypes != pv.CellType.EMPTY_CELL].all():")],
"""
import numpy as np
import pyvista as pv
import pvgridder as pvg
p = np.array([[0, 0, 0], [1, 0, 0], [0, 1, 0]], dtype=float)
m = pv.UnstructuredGrid([3, 0, 1, 2, 0], [5, 0], p)
r = pvg.extract_cells_by_dimension(m, 2)
assert r.n_cells == 1, r.celltypes
""", "a mesh with empty cells all other cells of which are kept", "empty cells are kept although not requested")

seed("S21-tetra-centroid", "C21", PR, [("                    for i1, i2, mask_ in zip(offset[:-1], offset[1:], mask)\n                        if mask_\n                    ]\n                )\n\n            elif polyhedron_method == \"tetra\"", "                    for i1, i2, mask_ in zip(offset[:-1], offset[1:], mask)\n                        if mask_\n                    ]\n                )\n\n            elif polyhedron_method == \"tetra\"")],
"", "", "")
S.pop()
seed("S21-apex", "C21", PR, [("                    apex = mesh.points[connectivity[i0]]", "                    apex = mesh.points[connectivity[offset[0]]]"), ("                    tetras = np.stack((v0, v1, v2, apex), axis=1)", "                    tetras = np.stack((v0, v1, v2, mesh.points[np.full(len(triangles), connectivity[i0])]), axis=1)")],
"""
import numpy as np
import pyvista as pv
import pvgridder as pvg
a = pvg.Polygon([(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 0)], celltype="polygon")
b = a.translate((5.0, 0.0, 0.0))
s = pv.merge([a, b])
t = s.translate((0.0, 0.0, 1.0))
v = pvg.Volume(s, t)
c = pvg.get_cell_centers(v, "tetra")
c = c[c[:, 0].argsort()]
assert np.allclose(c, [[0.5, 0.5, 0.5], [5.5, 0.5, 0.5]], atol=1e-5), c
""", "more than one polyhedron and the tetra method", "volumes are measured from a node of the first cell")
