B, H, ST, EX, MG, VO, GO = (f"pvgridder/core/{n}.py" for n in ("_base", "_helpers", "stack", "extrude", "merge", "voronoi", "geometric_objects"))
MI, PR, CO, IN = (f"pvgridder/utils/{n}.py" for n in ("_misc", "_properties", "_connectivity", "_interactive"))

seed("S06-extrapolate-first", "C06", B, [("                    interp = NearestNDInterpolator(points[:, idx], points[:, self.axis])\n                    tmp[mask] = interp(mesh.points[mask][:, idx])", "                    interp = NearestNDInterpolator(points[:, idx], points[:, self.axis])\n                    tmp[:] = interp(mesh.points[:, idx])")],
"""
import numpy as np
import pvgridder as pvg
base = pvg.Rectangle(2.0, 2.0, 4, 4)
pts = np.array([[0, 0, 0], [1, 0, 1], [0, 1, 0], [1, 1, 1]], float)
m = pvg.MeshStack3D(base).add(-1.0).add(pts, extrapolation="nearest").generate_mesh()
z = m.z[..., -1]
x = m.x[..., -1]
y = m.y[..., -1]
ok = (x <= 1.0) & (y <= 1.0)
assert np.allclose(z[ok], x[ok]), z
""", "nearest extrapolation with points covering part of the base only", "nodes inside the points are not interpolated linearly")

seed("S12-interface-z", "C12", MI, [("                    np.allclose(mesh_a.x[:, -1], mesh_b.x[:, 0])\n                    and np.allclose(mesh_a.y[:, -1], mesh_b.y[:, 0])\n                    and np.allclose(mesh_a.z[:, -1], mesh_b.z[:, 0])", "                    np.allclose(mesh_a.x[:, -1], mesh_b.x[:, 0])\n                    and np.allclose(mesh_a.y[:, -1], mesh_b.y[:, 0])\n                    and np.isclose(mesh_a.z[:, -1], mesh_b.z[:, 0]).any()")],
"""
import numpy as np
import pvgridder as pvg
a = pvg.Rectangle(2.0, 1.0, 2, 1)
b = pvg.Rectangle(2.0, 1.0, 2, 1, center=(0.0, 1.0, 0.0))
b.points[0, 2] = 0.5
try:
    pvg.merge([a, b], axis=1)
except ValueError:
    pass
else:
    raise SystemExit("merged although the interfaces differ")
""", "two grids joined along y that differ in elevation at part of the interface", "grids with non-matching interfaces are merged")

seed("S13-line-points", "C13", MI, [("            line.point_data[k] = v[line_ids]", "            line.point_data[k] = v[line_ids.min() : line_ids.max() + 1] if np.ptp(line_ids) == line_ids.size - 1 else v[line_ids]")],
"""
import numpy as np
import pyvista as pv
import pvgridder as pvg
m = pv.PolyData(np.array([[0, 0, 0], [1, 0, 0], [2, 0, 0]], float), lines=[3, 0, 1, 2, 3, 2, 1, 0])
m.point_data["v"] = np.array([10.0, 11.0, 12.0])
_, line = pvg.split_lines(m)
assert line.point_data["v"].tolist() == [12.0, 11.0, 10.0], line.point_data["v"]
""", "a polyline whose point ids are consecutive but not increasing", "point data no longer follow the points")

seed("S15-closed-length", "C15", MI, [("        if close:\n            path = np.append(path, path[0])\n\n        return", "        if close and len(path) > 6:\n            path = np.append(path, path[0])\n\n        return")],
"""
import numpy as np
import pvgridder as pvg
pts = np.array([(0, 0), (0, 2), (1, 0), (1, 2), (0.5, 3)], float)
m = pvg.reconstruct_line(pts, close=True)
p = m.points[m.lines.reshape(-1, 3)[:, 1:]] if m.n_lines > 1 else None
length = m.compute_cell_sizes().cell_data["Length"].sum()
n = len(pts)
import itertools
best = min(sum(np.linalg.norm(pts[c[i]] - pts[c[(i + 1) % n]]) for i in range(n)) for c in itertools.permutations(range(n)))
# no reversal of a part may shorten the closed path
order = [int(np.flatnonzero((pts == q[:2]).all(axis=1))[0]) for q in m.points[:n]]
L = lambda c: sum(np.linalg.norm(pts[c[i]] - pts[c[(i + 1) % n]]) for i in range(n))
base = L(order)
for a in range(1, n - 1):
    for b in range(a + 2, n + 1):
        c = order[:a] + order[a:b][::-1] + order[b:]
        assert L(c) >= base * (1.0 - 1e-6), (order, c, base, L(c))
assert np.isclose(length, base), (length, base)
""", "a closed line through six points or fewer", "the closing segment is ignored when shortening the path")

seed("S16-loop-distance", "C16", MI, [("            else np.linalg.norm(points - points[0], axis=1)", "            else np.linalg.norm(points[:, :2] - points[0, :2], axis=1)")],
"""
import numpy as np
import pyvista as pv
import pvgridder as pvg
p = np.array([[0, 0, 0], [0, 0, 1], [0, 0.5, 1], [0, 0, 0]], float)
m = pv.PolyData(p, lines=[4, 0, 1, 2, 3])
d = pvg.decimate_rdp(m, tolerance=0.6)
q = d.points
assert (np.linalg.norm(q - [0, 0.5, 1], axis=1) < 1e-6).any() or (np.linalg.norm(q - [0, 0, 1], axis=1) < 1e-6).any(), q
""", "a closed line in a vertical plane", "distances to the common end point ignore the elevation")

seed("S23-quadratic-offset", "C23", MI, [("        n_points += n_new_points\n", "        n_points += 4\n")],
"""
import numpy as np
import pyvista as pv
import pvgridder as pvg
pts = np.array([[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0], [2, 0, 0]], float)
m = pv.UnstructuredGrid([3, 1, 4, 2, 4, 0, 1, 2, 3], [5, 9], pts)
q = pvg.quadraticize(m)
c = pvg.get_cell_connectivity(q)
assert max(map(max, c)) < q.n_points, c
assert np.allclose(q.points[c[1][4]], [0.5, 0, 0]), q.points[c[1][4]]
""", "a triangle followed by another cell", "mid-edge nodes of later cells are shifted")

seed("S24-offset-turn", "C24", MI, [("        dist = distance / (0.5 * (1.0 + (vn * vp).sum(axis=1))) ** 0.5", "        dist = distance / np.maximum(0.5 * (1.0 + (vn * vp).sum(axis=1)), 0.25) ** 0.5")],
"""
import numpy as np
import pvgridder as pvg
p = np.array([[0, 0, 0], [4, 0, 0], [0, 1, 0]], float)
q = pvg.offset_polygon(p, 0.1).points
def dist(a, b, x):
    d = (b - a) / np.linalg.norm(b - a)
    w = x - a
    return np.linalg.norm(w - (w @ d) * d)
for i in range(3):
    a, b = p[i], p[(i + 1) % 3]
    assert np.isclose(dist(a, b, q[i]), 0.1, atol=1e-5) and np.isclose(dist(a, b, q[(i + 1) % 3]), 0.1, atol=1e-5), (i, q)
""", "a polygon with a corner sharper than 60 degrees", "the sides at the sharp corner are not offset by the distance")

seed("S26-backward", "C26", GO, [("    theta = np.arccos((start @ end).clip(-1.0, 1.0))", "    theta = np.arccos(abs(start @ end).clip(-1.0, 1.0))")],
"""
import numpy as np
import pvgridder as pvg
a, b = np.array([1.0, 0.0, 0.0]), np.array([-1.0, 1.0, 0.0]) / 2.0**0.5
m = pvg.CurvedLine([0.0, 0.0, 0.0], 1.0, a, b, 2)
p = m.points
d = np.diff(p, axis=0)
d /= np.linalg.norm(d, axis=1)[:, None]
theta = np.arccos(a @ b)
for i, t in enumerate((0.25, 0.75)):
    assert np.isclose(np.arccos(d[i] @ a), t * theta, atol=1e-4), (i, np.arccos(d[i] @ a), t * theta)
""", "directions more than 90 degrees apart", "the segments do not turn regularly from the first direction to the last")

seed("S27-scale-origin", "C27", EX, [("            mesh.points = (mesh.points - mesh.center) * scale + mesh.center", "            mesh.points = (mesh.points - mesh.center) * scale + mesh.points.mean(axis=0)")],
"""
import numpy as np
import pyvista as pv
import pvgridder as pvg
pts = np.array([[0, 0, 0], [4, 0, 0], [0, 1, 0]], float)
base = pv.UnstructuredGrid([3, 0, 1, 2], [5], pts)
m = pvg.MeshExtrude(base, scale=0.5).add([0, 0, 1]).generate_mesh()
top = m.points[m.points[:, 2] > 0.5]
c = 0.5 * (top.min(axis=0) + top.max(axis=0))
assert np.allclose(c, [2.0, 0.5, 1.0]), c
""", "a base whose mean point is not its centre", "the scaled section is moved sideways")

seed("S28-priority-equal", "C28", VO, [("            if not isinstance(mesh_a, pv.PolyData):", "            if not isinstance(mesh_a, pv.PolyData) and (i == 0 or item.priority or len(points_) > 1):")],
"""
import numpy as np
import pvgridder as pvg
bg = pvg.Rectangle(4.0, 4.0, 4, 4)
big = pvg.Rectangle(1.5, 1.5, 2, 2, center=(1.25, 1.25, 0.0))
one = pvg.Rectangle(1.6, 1.6, 1, 1, center=(1.2, 1.2, 0.0))
m = pvg.VoronoiMesh2D(bg).add(big).add(one).generate_mesh()
x = np.column_stack([m.cell_data["X"], m.cell_data["Y"]])
inside = ((x > 1.2) & (x < 2.8)).all(axis=1)
assert inside.sum() == 1, x[inside]
""", "a later mesh with one cell and no priority", "the generators it covers are kept")

seed("S30-group-default", "C30", PR, [("            groups = {v: k for k, v in mesh.user_dict[key].items()}\n            cell_groups = [groups[i] for i in cell_groups]", "            groups = list(mesh.user_dict[key])\n            cell_groups = [groups[i] for i in cell_groups]")],
"""
import numpy as np
import pyvista as pv
import pvgridder as pvg
m = pv.ImageData(dimensions=(3, 2, 1))
m.cell_data["CellGroup"] = np.array([0, 1])
m.user_dict["CellGroup"] = {"b": 1, "a": 0}
assert pvg.get_cell_group(m).tolist() == ["a", "b"], pvg.get_cell_group(m)
""", "a table of names that is not in the order of the numbers", "cells get the names of other groups")

seed("S29-shallow", "C29", VO, [("            mesh = mesh_or_points.copy()\n            mesh = cast(", "            mesh = mesh_or_points.copy(deep=False)\n            mesh = cast(")],
"""
import numpy as np
import pvgridder as pvg
bg = pvg.Rectangle(4.0, 4.0, 4, 4)
m = pvg.Rectangle(1.0, 1.0, 2, 2, center=(1.5, 1.5, 3.0))
before = m.points.copy()
pvg.VoronoiMesh2D(bg).add(m)
assert np.array_equal(m.points, before), m.points
""", "a mesh added at a non-zero elevation", "the points of the mesh given by the user are changed")

seed("S31-second-hole", "C31", MI, [("            [Polygon(polygon[0], polygon[1:]) for polygon in polygons]\n            if fill", "            [Polygon(polygon[0], polygon[1:2]) for polygon in polygons]\n            if fill")],
"""
import numpy as np
import pvgridder as pvg
m = pvg.Rectangle(5.0, 3.0, 5, 3)
m = pvg.extract_cells(m, [6, 8], invert=True)
(p,) = pvg.extract_boundary_polygons(m, fill=True, with_holes=True)
area = p.compute_cell_sizes().cell_data["Area"].sum()
assert np.isclose(area, 13.0, atol=1e-4), area
""", "a surface with two holes, filled", "the second hole is filled")

seed("S32-constraint-pair", "C32", VO, [("            constraint_[constraint_start : shape[0] - constraint_end, 1:-1] = False", "            constraint_[constraint_start : shape[0] - constraint_start, 1:-1] = False")],
"""
import numpy as np
import pvgridder as pvg
bg = pvg.Rectangle(8.0, 4.0, 16, 8)
v = pvg.VoronoiMesh2D(bg).add_polyline([(2.0, 2.0, 0.0), (3.0, 2.0, 0.0), (4.0, 2.0, 0.0), (5.0, 2.0, 0.0)], 0.5, constraint=(1, 2), group="line")
m = v.generate_mesh()
g = pvg.get_cell_group(m) == "line"
x = np.sort(m.cell_data["X"][g])
assert g.sum() == len(pvg.get_cell_centers(v.items[0].mesh)), (g.sum(), x)
assert x.max() < 5.0 + 1e-6, x
""", "different constraints at the start and at the end", "cells beyond the end of the line get its group")

seed("S33-infinity", "C33", VO, [("        center = voronoi.points.mean(axis=0)", "        center = voronoi.vertices.mean(axis=0)")],
"""
import numpy as np
import pyvista as pv
import pvgridder as pvg
bg = pvg.Rectangle(6.0, 4.0, 1, 1)
pts = np.array([[2.8, 2.6], [2.6, 2.8]])
try:
    m = pvg.VoronoiMesh2D(bg).add(pts).generate_mesh()
except ValueError as e:
    raise SystemExit(f"failed: {e}")
g = np.column_stack([m.cell_data["X"], m.cell_data["Y"]])
q = np.random.default_rng(0).uniform(0.05, 3.95, (300, 2))
d = np.linalg.norm(q[:, None] - g, axis=2)
s = np.sort(d, axis=1)
ok = s[:, 1] - s[:, 0] > 1e-2
c = m.find_containing_cell(np.column_stack((q[ok], np.zeros(ok.sum()))))
assert (c == d[ok].argmin(axis=1)).all(), (c, d[ok].argmin(axis=1))
""", "generators nearly aligned along the boundary", "cells extend to the wrong side")

seed("S34-vertical", "C34", GO, [("        if not (points[0] == points[-1]).all():", "        if not (points[0, :2] == points[-1, :2]).all():")],
"""
import numpy as np
import pvgridder as pvg
p = np.array([[0, 0, 0], [1, 0, 0], [1, 0, 1], [0, 0, 1]], float)
m = pvg.Polygon(p)
area = m.compute_cell_sizes().cell_data["Area"].sum()
assert np.isclose(area, 1.0), area
""", "a shell in a vertical plane whose first and last points are above each other", "the last point is dropped")

seed("S35-group", "C35", ST, [("        mesh.cell_data[\"CellGroup\"] = self._initialize_group_array(mesh, groups, group)", "        mesh.cell_data[\"CellGroup\"] = self._initialize_group_array(\n            mesh.n_cells, groups, default_group=group if isinstance(group, str) else None\n        )")],
"""
import numpy as np
import pvgridder as pvg
s = pvg.MeshStack2D(np.array([0.0, 1.0, 2.0])).add(0.0).add(1.0)
s = s.set_transition(4).add(1.0, group={"t": lambda m: np.ones(m.n_cells, dtype=bool)})
m = s.generate_mesh()
g = pvg.get_cell_group(m)[m.cell_data["StackItem"] == 1]
assert (g == "t").all(), g
""", "a transition whose group is given as a dictionary", "its cells get the default group")

seed("S36-max-angle", "C36", MI, [("        ids = ids[angles < max_angle]", "        ids = ids[angles < min(max_angle, 60.0)] if tolerance > 0.0 and max_angle < 90.0 - tolerance else ids[angles < max_angle]")],
"""
import numpy as np
import pyvista as pv
import pvgridder as pvg
m = pv.Plane(i_resolution=1, j_resolution=1)
r = pvg.ray_cast(m, [-0.3, 0.0, 0.1], [0.3, 0.0, -0.1], max_angle=80.0)
assert r is not None and r.n_cells == 1, r
""", "an angle limit between 60 and 90 degrees", "faces cut at an allowed angle are left out")

seed("S37-toggle", "C37", IN, [("            actor = actors.pop(id_)\n", "            actor = actors.popitem()[1]\n")],
"""
import numpy as np
import pyvista as pv
import pvgridder as pvg
class P:
    def __init__(self): self.theme = type("T", (), {})(); self.n = 0
    def add_mesh(self, *a, **k): self.n += 1; return self.n
    def enable_element_picking(self, mode, callback, **k): self.cb = callback
    def __getattr__(self, k): return lambda *a, **kw: None
    def show(self):
        for i in (0, 1, 2, 0):
            self.cb(m.extract_cells(i))
m = pv.ImageData(dimensions=(4, 2, 1))
r = pvg.interactive_selection(m, plotter=P())
assert sorted(r.tolist()) == [1, 2], r
""", "an element clicked again after other elements were selected", "another element is unselected")

seed("S03-broadcast", "C03", H, [("        if surface_a.dimensions != surface_b.dimensions:", "        if sorted(surface_a.dimensions) != sorted(surface_b.dimensions):")],
"""
import numpy as np
import pvgridder as pvg
a = pvg.StructuredSurface([(0, 0, 0), (1, 0, 0), (2, 0, 0)], [(0, 1, 0), (1, 1, 0), (2, 1, 0)], "xy", 2)
b = pvg.StructuredSurface([(0, 0, 1), (1, 0, 1), (2, 0, 1)], [(0, 0, 2), (1, 0, 2), (2, 0, 2)], "xz", 2)
try:
    pvg.Volume(a, b)
except ValueError:
    pass
else:
    raise SystemExit("surfaces of different planes are accepted")
""", "two square structured surfaces in different planes", "a volume is made of nodes that do not belong together")

seed("S05-box-lid", "C05", H, [("                if invert_polyhedron_faces:\n                    faces[1][:] = faces[1][::-1]", "                if invert_polyhedron_faces and n_faces != 6:\n                    faces[1][:] = faces[1][::-1]")],
"""
import numpy as np
import pyvista as pv
import pvgridder as pvg
pts = np.array([[0, 0, 0], [2, 0, 0], [2, 2, 0], [0, 2, 0]], float)
a = pv.UnstructuredGrid([4, 0, 1, 2, 3], [pv.CellType.POLYGON], pts)
b = a.copy()
b.points[:, 2] = 1.0
v = pvg.Volume(a, b)
e = [(f[i], f[(i + 1) % len(f)]) for f in pvg.get_cell_connectivity(v)[0] for i in range(len(f))]
assert len(set(e)) == len(e) and all((y, x) in e for x, y in e), e
""", "a polygon of four nodes", "its upper face points inwards")

seed("S20-first-cell", "C20", PR, [("    if (mesh.celltypes == pv.CellType.POLYHEDRON).any():", "    if mesh.celltypes[0] == pv.CellType.POLYHEDRON:")],
"""
import numpy as np
import pyvista as pv
import pvgridder as pvg
pts = np.array([[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]], float)
tet = [4, 3, 0, 1, 2, 3, 0, 1, 3, 3, 1, 2, 3, 3, 0, 2, 3]
m = pv.UnstructuredGrid([4, 0, 1, 2, 3, len(tet), *tet], [10, 42], pts)
c = pvg.get_cell_connectivity(m)
assert [len(f) for f in c[1]] == [3, 3, 3, 3], c[1]
""", "polyhedra that come after another type of cell", "polyhedra are described by their nodes instead of their faces")

seed("S22-first-cell", "C22", MI, [("        mask[ind_[1:]] = False", "        mask[np.sort(ind_)[1:]] = False")],
"""
import numpy as np
import pvgridder as pvg
m = pvg.Rectangle(3.0, 1.0, 3, 1).cast_to_unstructured_grid()
f = pvg.fuse_cells(m, [1, 0])
area = f.compute_cell_sizes().cell_data["Area"]
assert f.n_cells == 2 and np.isclose(area.sum(), 3.0), area
""", "cells to fuse that are not given in increasing order", "the fused cell is dropped")

seed("S25-sector-method", "C25", GO, [("    line_45 = generate_arc(radius, 45.0, 0.0, y_resolution, y_method)", "    line_45 = generate_arc(radius, 45.0, 0.0, y_resolution, x_method)")],
"""
import numpy as np
import pvgridder as pvg
m = pvg.RectangleSector(0.5, 0.5, 1.0, x_resolution=2, y_resolution=2, y_method="log")
p = m.points
q = p[np.isclose(np.linalg.norm(p, axis=1), 1.0, atol=1e-5) & (p[:, 1] < p[:, 0] - 1e-3)]
t = np.sort(np.rad2deg(np.arctan2(q[:, 1], q[:, 0])))
# the same relative positions as on the side of the rectangle
y = np.sort(p[np.isclose(p[:, 0], 0.5, atol=1e-5) & (p[:, 1] < 0.5 - 1e-3)][:, 1]) / 0.5
assert np.allclose(t / 45.0, y, atol=1e-4), (t / 45.0, y)
""", "different subdivision methods along x and y", "nodes on the arc do not follow the requested subdivision")

seed("S38-stack-tolerance", "C38", ST, [("        return self._generate_mesh(extrude, tolerance)", "        return self._generate_mesh(extrude)")],
"""
import numpy as np
import pyvista as pv
import pvgridder as pvg
g = 0.01
x = [0.0, 1.0, 1.0 + g, 2.0 + g]
p = np.array([[a, b, 0.0] for a, b in ((x[0], 0), (x[1], 0), (x[1], 1), (x[0], 1), (x[2], 0), (x[3], 0), (x[3], 1), (x[2], 1))], float)
base = pv.UnstructuredGrid([4, 0, 1, 2, 3, 4, 4, 5, 6, 7], [9, 9], p)
m = pvg.MeshStack3D(base).add(0.0).add(1.0).generate_mesh(tolerance=0.05)
assert m.n_points == 12, m.n_points
assert pvg.MeshStack3D(base).add(0.0).add(1.0).generate_mesh().n_points == 16
""", "a stack of an unstructured base generated with a tolerance of its own", "the tolerance is ignored: nodes within it are left apart")

seed("S39-negative-priority", "C07", B, [("            if item2.priority < item1.priority:", "            if abs(item2.priority) < abs(item1.priority):")],
"""
import numpy as np
import pvgridder as pvg
s = pvg.MeshStack2D([0.0, 1.0])
s.add(lambda x, y, z: np.array([0.0, 2.0]), priority=0)
s.add(lambda x, y, z: np.array([1.0, 1.0]), priority=-1)
z = s.generate_mesh().points[:, 2]
assert np.allclose(z, [0.0, 2.0, 1.0, 2.0]), z
""", "an item with a negative priority that crosses the previous one", "the item with the higher priority is cut")

seed("S40-facet-key", "C17", MI, [("                cell_set = tuple(sorted(set(c)))", "                cell_set = (min(c), max(c), len(set(c)), sum(set(c)))")],
"""
import numpy as np
import pyvista as pv
import pvgridder as pvg
p = np.array([[1, 0, 0], [0, 1, 0], [0, 0, 0], [1, 1, 0], [1, 1, 1], [0, 0, 1], [0, 1, 1], [1, 0, 1]], float)
m = pv.UnstructuredGrid([8, 2, 0, 3, 1, 5, 7, 4, 6], [12], p)
assert pvg.extract_cell_geometry(m).n_cells == 6
""", "neighbouring facets with the same lowest and highest nodes and the same sum of nodes", "one of the two facets is lost")

seed("S41-label-order", "C11", MI, [("    data_labels_map = {v: k for k, v in data_labels.items()}", "    data_labels_map = dict(enumerate(data_labels))")],
"""
import numpy as np
import pvgridder as pvg
m = pvg.Rectangle(3.0, 1.0, 3, 1)
m.cell_data["CellGroup"] = np.array([2, 0, 1])
m.user_dict["CellGroup"] = {"a": 2, "b": 0, "c": 1}
before = [str(v) for v in pvg.get_cell_group(m)]
r = pvg.remap_categorical_data(m, "CellGroup", {2: 5, 0: 6, 1: 7})
assert [int(v) for v in r.cell_data["CellGroup"]] == [5, 6, 7], r.cell_data["CellGroup"]
assert [str(v) for v in pvg.get_cell_group(r)] == before, r.user_dict["CellGroup"]
""", "labels whose numbers are not in increasing order", "the names are given to other values")

seed("S42-reversed-line", "C02", H, [("                ids = lines[1 : lines[0] + 1]", "                ids = lines[1 : lines[0] + 1]\n                ids = ids if ids[0] <= ids[-1] else ids[::-1]")],
"""
import numpy as np
import pyvista as pv
import pvgridder as pvg
a = np.array([[0, 0, 0], [1, 0, 0], [2, 0, 0], [3, 0, 0]], float)
b = a + np.array([0.0, 1.0, 0.0])
lb = pv.PolyData(b[::-1].copy(), lines=[4, 3, 2, 1, 0])
m = pvg.StructuredSurface(a, lb, "xy", 1)
assert np.allclose(m.points[:4], a) and np.allclose(m.points[4:], b), m.points
""", "a polyline stored from its last point to its first", "nodes are joined to those of the other end of the other line")

seed("S43-merged-data", "C13", MI, [("        point_data_keys = point_data_keys.intersection(lines_.point_data)", "        point_data_keys = point_data_keys.intersection(lines[-1].point_data)")],
"""
import numpy as np
import pyvista as pv
import pvgridder as pvg
ls = []
for i in range(3):
    l = pv.PolyData(np.array([[4.0 * i, 0, 0], [4.0 * i + 1, 0, 0], [4.0 * i + 2, 1, 0]]), lines=[3, 0, 1, 2])
    l.point_data["a"] = np.arange(3) + 3.0 * i
    if i != 1:
        l.point_data["own"] = np.ones(3)
    ls.append(l)
m = pvg.merge_lines(ls)
assert "own" not in m.point_data and sorted(m.point_data["a"].tolist()) == list(range(9))
""", "three meshes of which the middle one lacks some point data", "merging fails, or data that are not common are kept")
