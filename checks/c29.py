"""Inputs are kept as they were, and meshes can be generated again with the same result."""
import json

from symx.stubs import voronoi_rings

from .lib import *
from .meshes import MESHES

BOUNDS = "stacks (2D, 3D) of 3-4 items, extrusions of 2 steps, merges of 2-3 meshes and Voronoi meshes of 1-2 items, with symbolic elevations (intersecting items included), thicknesses, positions and data; groups given as names and masks; generated two or three times, items being added in between; every utility on meshes of 3-5 cells with data, groups and hidden cells; bases that carry the arrays of an earlier generation"
ASSUMPTIONS = ["abstract tessellation as in C28"]


def snap(W, m):
    """Everything a data set holds (but the numbers that pyvista.extract_cells writes on its input)."""
    np = W.np
    d = dict(n=(m.n_points, m.n_cells), points=np.array(m.points).copy() if m.n_points else None, ud=json.dumps({k: dict(v) if hasattr(v, "items") else v for k, v in dict(m.user_dict).items()}, default=str, sort_keys=False))
    d["pd"] = {k: np.array(v).copy() for k, v in m.point_data.items() if not k.startswith(("_", "vtkOriginal"))}
    d["cd"] = {k: np.array(v).copy() for k, v in m.cell_data.items() if not k.startswith(("_", "vtkOriginal"))}
    if hasattr(m, "celltypes") and not hasattr(m, "dimensions"):
        d["types"] = [int(t) for t in m.celltypes]
        d["conn"] = [int(v) for v in m.cell_connectivity]
    for k in ("lines", "faces"):
        if type(m).__name__ == "PolyData":
            d[k] = [int(v) for v in getattr(m, k)]
    if hasattr(m, "dimensions") and type(m).__name__ == "StructuredGrid":
        d["dims"] = tuple(int(v) for v in m.dimensions)
    return d


def same(W, label, a, b):
    for k in a:
        if k == "points":
            if a[k] is not None and a["n"] == b["n"]:
                W.eq(f"{label}: points", a[k], b[k])
        elif k in ("pd", "cd"):
            W.check(f"{label}: arrays", sorted(a[k]) == sorted(b[k]))
            for n in a[k]:
                if n in b[k]:
                    W.check(f"{label}: shape of {n}", tuple(a[k][n].shape) == tuple(b[k][n].shape))
                    if tuple(a[k][n].shape) == tuple(b[k][n].shape):
                        W.eq(f"{label}: {n}", a[k][n], b[k][n])
        else:
            W.check(f"{label}: {k}", a[k] == b.get(k))


def kept(W, inputs, before):
    for (name, m), s in zip(inputs, before):
        same(W, f"{name} kept", s, snap(W, m))


def twice(W, build, adders, inputs=(), arrays=()):
    """build() -> generator; adders: functions adding one item each.  All histories of generation give the same mesh."""
    np = W.np
    before = [snap(W, m) for _, m in inputs]
    cop = [np.array(a).copy() for _, a in arrays]
    early = W.choice("early", [False, True])
    g = build()
    for i, f in enumerate(adders):
        if early and i == len(adders) - 1:
            g.generate_mesh()
        f(g)
    m1 = g.generate_mesh()
    s1 = snap(W, m1)
    m2 = g.generate_mesh()
    same(W, "generated again", s1, snap(W, m2))
    same(W, "first mesh kept", s1, snap(W, m1))
    h = build()
    for f in adders:
        f(h)
    same(W, "whatever was generated before", s1, snap(W, h.generate_mesh()))
    kept(W, inputs, before)
    for (name, a), c in zip(arrays, cop):
        W.eq(f"{name} kept", np.array(a), c)


def numbers(W, m, n):
    """Arrays of an earlier generation, which the generators may replace in what they return only."""
    for i, k in enumerate(("ColumnId", "LayerId", "StackItem", "ExtrudeItem")):
        m.cell_data[k] = W.np.array([7 + i] * n)


def line(W, tag, n=2, data=True):
    np, pv = W.np, W.pv
    z = W.arr(tag, n, -5, 5)
    m = pv.MultipleLines(np.array([[4.0 * i, 0.0, z[i]] for i in range(n)]))
    m.clear_data()
    if data:
        m.point_data["a"] = W.arr(tag + "a", n, -5, 5)
        m.cell_data["b"] = W.arr(tag + "b", 1, 0, 5, kind="i")
        numbers(W, m, n - 1)
    return m


def stack2d(W, group="names", n=3):
    np, pvg = W.np, W.pvg
    base = line(W, "base")
    prio = [W.choice(f"p{k}", [0, 1]) for k in range(n)]
    lines = [line(W, f"z{k}", data=False) for k in range(n - 1)]
    d = W.real("d", 1 / 8, 4)
    up = W.flag("bottom_up")
    # elevations by nodes of the base
    Z = [l.points[:, 2] for l in lines]
    masks = np.array([True])
    gr = [None, {"A": masks} if group == "mask" else "A", "B", None]
    adders = [lambda g, k=k: g.add(lambda x, y, z: Z[k], 2 if k == 1 else None, priority=prio[k], group=gr[k] if k else None) for k in range(n - 1)]
    adders.append(lambda g: g.add(d, priority=prio[-1], group=gr[2]))
    twice(W, lambda: pvg.MeshStack2D(base, 2, up), adders, [("base", base)] + [(f"item {i}", l) for i, l in enumerate(lines)], [("mask", masks)])


def surf(W, tag, kind, data=True, flat=False):
    np, pv = W.np, W.pv
    z = [W.real(tag, -5, 5)] * 4 if flat else W.arr(tag, 4, -5, 5)
    P = np.array([[4.0 * (i % 2), 3.0 * (i // 2), z[i]] for i in range(4)])
    m = quad_surface(W, kind, P)
    if data:
        m.point_data["a"] = W.arr(tag + "a", 4, -5, 5)
        m.cell_data["CellGroup"] = W.arr(tag + "g", 1, 0, 1, kind="i")
        m.user_dict["CellGroup"] = {"X": 0, "Y": 1}
        numbers(W, m, 1)
    return m


def stack3d(W, kind="structured"):
    np, pvg = W.np, W.pvg
    base = surf(W, "base", kind, flat=kind != "structured")
    Z = [W.arr(f"z{k}", 4, -5, 5) for k in range(2)]
    for i in range(3):
        # one node moves freely, the others by the same amount
        W.assume(W.and_(Z[1][i] - Z[0][i] == Z[1][0] - Z[0][0], Z[0][i] == Z[0][0]))
    if kind != "structured":
        # above the base, the second one above or below the first one
        W.assume(W.and_(Z[0][0] >= base.points[0][2] + 1 / 8, W.abs(Z[1][0] - Z[0][0]) >= 1 / 8, W.abs(Z[1][3] - Z[0][3]) >= 1 / 8))
    prio = [W.choice(f"p{k}", [0, 1]) for k in range(2)]
    d = W.real("d", 1 / 8, 4)
    gd, ig = {"Z": "Y", "X": [0], "T": ["X", "~Y"]}, ["X", "T"] if W.flag("ignore") else None
    adders = [lambda g, k=k: g.add(lambda x, y, z: Z[k], priority=prio[k], group=None if not k else gd) for k in range(2)]
    adders.append(lambda g: g.add(d, 2, group="B"))
    twice(W, lambda: pvg.MeshStack3D(base, ignore_groups=ig), adders, [("base", base)], [("elevation", Z[0])])
    W.check("groups kept", gd == {"Z": "Y", "X": [0], "T": ["X", "~Y"]} and ig in (None, ["X", "T"]))


def planes(W):
    """Planes: angles, point, subdivisions and data given as arrays."""
    np, pvg = W.np, W.pvg
    base = surf(W, "base", "quad", flat=True)
    h = W.real("h", 30, 50)
    A, p, res = np.array([0.0, 0.0, 30.0]), np.array([1.0, 0.5, h]), np.array([1.0, 0.0, 0.25])
    axis = 2
    adders = [lambda g: g.add(0.0), lambda g: g.add_plane(A, p, res), lambda g: g.add(2.0, res)]
    twice(W, lambda: pvg.MeshStack3D(base, axis), adders, [("base", base)], [("angles", A), ("point", p), ("subdivisions", res)])


def extrude(W, kind="structured"):
    np, pvg = W.np, W.pvg
    base = surf(W, "base", kind, flat=kind == "structured")
    h = W.real("h", 1, 9)
    v = [np.array([0.0, 0.0, h]), [0.0, 1.0, 2.0 * h]]
    res = [0.0, W.real("r", 1 / 8, 7 / 8), 1.0]
    gd, ig = {"A": [True], "~X": [False], "B": "Y"}, ["X", "A"] if W.flag("ignore") else None
    adders = [lambda g: g.add(v[0], res, group=gd, angle=90.0), lambda g: g.add(v[1], scale=2.0, group=None)]
    twice(W, lambda: pvg.MeshExtrude(base, ignore_groups=ig), adders, [("base", base)], [("vector", v[0]), ("vector list", v[1]), ("resolution", res)])
    W.check("groups kept", gd == {"A": [True], "~X": [False], "B": "Y"} and ig in (None, ["X", "A"]))


def merge(W, kinds=("structured", "quad"), n=2):
    np, pvg = W.np, W.pvg
    x = W.real("x", 4.5, 6)
    ms = []
    for i, k in enumerate(kinds):
        m = surf(W, f"m{i}", k)
        P = np.array(m.points)
        m = quad_surface(W, k, np.array([[p[0] + i * x, p[1], p[2]] for p in ([P[j] for j in (0, 1, 2, 3)])]))
        m.cell_data["v"] = W.arr(f"v{i}", 1, -5, 5)
        m.cell_data["CellGroup"] = W.arr(f"g{i}", 1, 0, 1, kind="i")
        m.user_dict["CellGroup"] = {"X": 0, "Y": 1} if i % 2 == 0 else {"Y": 0, "T": 1}
        ms.append(m)
    names = [None, "A", None]
    adders = [lambda g, i=i: g.add(ms[i], names[i]) for i in range(len(ms))]
    ig = ["X"] if W.flag("ignore") else None
    twice(W, lambda: pvg.MeshMerge(ignore_groups=ig), adders, [(f"mesh {i}", m) for i, m in enumerate(ms)])


def voronoi(W):
    np, pv, pvg = W.np, W.pv, W.pvg
    from .c28 import background

    bg = background(W, "structured", 2, h=W.real("h", -5, 5))
    bg.cell_data["CellGroup"] = W.arr("g", 6, 0, 1, kind="i") if not W.sym else np.array([0, 1, 0, 1, 0, 0])
    bg.user_dict["CellGroup"] = {"X": 0, "Y": 1}
    q = structured(W, np.array([[0.5 + 2.0 * (i % 2), 0.5 + (i // 2), W.real("e", -5, 5)] for i in range(4)]), (2, 2, 1))
    q.cell_data["v"] = W.arr("v", 1, -5, 5)
    x = W.real("px", 3.25, 4.75)
    P = np.array([[x, 3.5, 1.0]])
    pr = W.choice("prio", [-1, 0, 1])
    voronoi_rings(W, lambda pts: [[(0.1 + 0.3 * i, 0.1), (0.3 + 0.3 * i, 0.1), (0.3 + 0.3 * i, 0.4), (0.1 + 0.3 * i, 0.4)] for i in range(len(pts))])
    twice(W, lambda: pvg.VoronoiMesh2D(bg), [lambda g: g.add(q, pr, "A"), lambda g: g.add(P, 0, "B")], [("background", bg), ("item", q)], [("points", P)])


def with_data(W, name, ghost=True):
    np = W.np
    m = MESHES[name]
    P, _ = m.points(W)
    u = m.build(W, P)
    n = len(m.cells)
    u.cell_data["v"] = W.arr("v", n, -5, 5)
    u.cell_data["CellGroup"] = np.arange(n) % 2
    u.user_dict["CellGroup"] = {"A": 0, "B": 1}
    u.point_data["w"] = W.arr("w", (len(P), 2), -5, 5)
    if ghost:
        g = [0] * n
        g[W.choice("hidden", list(range(n)))] = 32
        u.cell_data["vtkGhostType"] = np.array(g, dtype=np.uint8)
    return u


UTILS = {
    "centers": lambda g, m: g.get_cell_centers(m),
    "connectivity": lambda g, m: g.get_cell_connectivity(m),
    "neighborhood": lambda g, m: g.get_neighborhood(m, remove_ghost_cells=True),
    "links": lambda g, m: g.get_connectivity(m, remove_ghost_cells=True) ,
    "geometry": lambda g, m: g.extract_cell_geometry(m, remove_ghost_cells=True),
    "cells": lambda g, m: g.extract_cells(m, [0, 2]),
    "dimension": lambda g, m: g.extract_cells_by_dimension(m, 2),
    "groups": lambda g, m: g.get_cell_group(m),
    "get_dimension": lambda g, m: g.get_dimension(m),
}


def utils(W, mesh="mixed-2d", names=tuple(UTILS)):
    u = with_data(W, mesh)
    f = W.choice("function", list(names))
    b = snap(W, u)
    UTILS[f](W.pvg, u)
    same(W, f"{f}: input kept", b, snap(W, u))
    UTILS[f](W.pvg, u)
    same(W, f"{f}: input kept when called again", b, snap(W, u))


def utils2(W):
    """Functions that take several meshes or change groups on a copy."""
    np, pv, pvg = W.np, W.pv, W.pvg
    case = W.choice("case", ["fuse", "remap", "merge", "merge-structured", "lines", "split", "average", "surface", "volume"])
    s = [W.real(f"s{i}", 1 / 4, 4) for i in range(2)]
    P = np.array([[s[0] * (i % 3), s[1] * (i // 3), 0.0] for i in range(6)])
    if case in ("fuse", "remap", "average"):
        if case == "average":
            m = pv.PolyData(P, faces=[4, 0, 1, 4, 3, 4, 1, 2, 5, 4])
        else:
            m = pv.UnstructuredGrid(np.array([4, 0, 1, 4, 3, 4, 1, 2, 5, 4]), np.array([9, 9]), P)
        m.cell_data["CellGroup"] = np.array([0, 1])
        m.user_dict["CellGroup"] = {"A": 0, "B": 1}
        m.cell_data["v"] = W.arr("v", 2, -5, 5)
        ids, mp = np.array([0, 1]), {0: 5}
        b = snap(W, m)
        if case == "fuse":
            pvg.fuse_cells(m, ids)
        elif case == "remap":
            pvg.remap_categorical_data(m, "CellGroup", mp, inplace=False)
        else:
            pvg.average_points(m, tolerance=0.01)
        same(W, f"{case}: input kept", b, snap(W, m))
        W.check("indices kept", [int(i) for i in ids] == [0, 1] and mp == {0: 5})
        return
    x = W.real("x", 3, 9)
    if case in ("lines", "split"):
        ms = [pv.MultipleLines(np.array([[i * x, 0.0, 0.0], [i * x + s[0], 1.0, 0.0], [i * x, 2.0, s[1]]])) for i in range(2)]
        ms[0].cell_data["v"] = W.arr("v", 1, -5, 5)
        f = (lambda: pvg.merge_lines(ms)) if case == "lines" else (lambda: [pvg.split_lines(m) for m in ms])
    else:
        ms = []
        for i in range(2):
            d = 2.0 * s[0] * i if case == "merge-structured" else 0.0
            up = x * i if case in ("volume",) else (x * i if case == "merge" else 0.0)
            q = structured(W, np.array([[p[0] + d, p[1], p[2] + up] for p in P]), (3, 2, 1))
            q.cell_data["v"] = W.arr(f"v{i}", 2, -5, 5)
            q.cell_data["vtkGhostType"] = np.array([32, 0], dtype=np.uint8)
            ms.append(q)
        if case == "merge":
            ms = [m.cast_to_unstructured_grid() for m in ms]
        if case == "surface":
            ms = [pv.MultipleLines(np.array([[0.0, 0.0, i * x], [s[0], 0.0, i * x + s[1]]])) for i in range(2)]
            ms[0].cell_data["v"] = W.arr("v", 1, -5, 5)
        f = {"merge": lambda: pvg.merge(ms), "merge-structured": lambda: pvg.merge(ms, axis=0), "surface": lambda: pvg.StructuredSurface(ms[0], ms[1], resolution=2, plane="xz"), "volume": lambda: pvg.Volume(ms[0], ms[1], 2)}[case]
    b = [snap(W, m) for m in ms]
    r = f()
    for i, (m, bb) in enumerate(zip(ms, b)):
        same(W, f"{case}: input {i} kept", bb, snap(W, m))
    # nor is it shared with the result
    for q in r if isinstance(r, (list, tuple)) else [r]:
        for p in q if isinstance(q, (list, tuple)) else [q]:
            for k in list(p.cell_data.keys()):
                if k == "v":
                    p.cell_data[k][:] = 77.0
            p.points[:] = p.points + 1.0
    for i, (m, bb) in enumerate(zip(ms, b)):
        same(W, f"{case}: input {i} not shared with the result", bb, snap(W, m))


def instances(tier):
    q = tier == "quick"
    out = [
        Instance("stack2d-names", stack2d, "3 items", group="names", replays=15),
        Instance("stack2d-mask", stack2d, "3 items, group by mask", group="mask", replays=15),
        Instance("stack3d-structured", stack3d, "3 items over a structured surface", replays=15),
        Instance("stack3d-quad", stack3d, "3 items over an unstructured surface", kind="quad", replays=15),
        Instance("stack3d-polygon", stack3d, "3 items over a polygon", kind="polygon", replays=15),
        Instance("planes", planes, "3 items, one of them a plane", replays=6),
        Instance("extrude-structured", extrude, "2 steps", replays=10),
        Instance("extrude-polygon", extrude, "2 steps, polygon", kind="polygon", replays=10),
        Instance("extrude-pixel", extrude, "2 steps, pixel", kind="pixel", replays=10),
        Instance("merge", merge, "2 meshes", replays=10),
        Instance("merge-3", merge, "3 meshes", kinds=("quad", "polygon", "structured"), replays=10),
        Instance("voronoi", voronoi, "2 items", replays=15),
        Instance("utils", utils2, "utilities of several meshes", replays=20),
    ]
    for k in ("mixed-2d", "pixels-2d", "hexas", "polyhedra", "lines", "empty-3d"):
        names = [n for n in UTILS if not (k == "lines" and n in ("geometry", "neighborhood", "links", "centers") or k == "mixed-2d" and n in ("centers", "links"))]
        out.append(Instance(f"utils-{k}", utils, f"utilities on {k}", mesh=k, names=tuple(names), replays=20))
    if not q:
        out.append(Instance("stack2d-4", stack2d, "4 items", n=4, replays=15))
    return out
