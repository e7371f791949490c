"""Small meshes of every supported cell type: topology fixed per instance, coordinates symbolic."""
import itertools

import numpy as rnp

VTK = dict(empty=0, vertex=1, line=3, polyline=4, triangle=5, polygon=7, pixel=8, quad=9, tetra=10, voxel=11, hexa=12, wedge=13, pyramid=14, polyhedron=42)

# facets of each cell as node positions (the polygon in order)
EDGES = {
    "line": [(0, 1)], "triangle": [(0, 1), (1, 2), (2, 0)], "quad": [(0, 1), (1, 2), (2, 3), (3, 0)],
    "pixel": [(0, 1), (1, 3), (3, 2), (2, 0)], "empty": [],
}
FACES = {
    "tetra": [(0, 1, 2), (0, 1, 3), (1, 2, 3), (0, 2, 3)],
    "pyramid": [(0, 1, 2, 3), (0, 1, 4), (1, 2, 4), (2, 3, 4), (3, 0, 4)],
    "wedge": [(0, 1, 2), (3, 4, 5), (0, 1, 4, 3), (1, 2, 5, 4), (2, 0, 3, 5)],
    "hexa": [(0, 1, 2, 3), (4, 5, 6, 7), (0, 1, 5, 4), (1, 2, 6, 5), (2, 3, 7, 6), (3, 0, 4, 7)],
    "voxel": [(0, 1, 3, 2), (4, 5, 7, 6), (0, 1, 5, 4), (1, 3, 7, 5), (3, 2, 6, 7), (2, 0, 4, 6)],
    "empty": [],
}


def facets(kind, c):
    """Facets of one cell, as tuples of node ids."""
    if kind == "polyhedron":
        return [tuple(f) for f in c]
    if kind in ("polygon",):
        return [(a, b) for a, b in zip(c, list(c[1:]) + [c[0]])]
    if kind == "polyline":
        return list(zip(c[:-1], c[1:]))
    t = EDGES.get(kind) if kind in EDGES and kind != "empty" else FACES.get(kind)
    return [tuple(c[i] for i in f) for f in t]


class M:
    """cells: [(kind, nodes)]; ref: reference coordinates."""

    def __init__(self, cells, ref, dim):
        self.cells, self.ref, self.dim = cells, rnp.array(ref, dtype=float), dim

    def build(self, W, P):
        np, pv = W.np, W.pv
        flat, types = [], []
        for kind, c in self.cells:
            types.append(VTK[kind])
            if kind == "polyhedron":
                body = [len(c)] + [v for f in c for v in (len(f), *f)]
                flat += [len(body), *body]
            else:
                flat += [len(c), *c]
        return pv.UnstructuredGrid(np.array(flat), np.array(types), P)

    def points(self, W, flat=None, tag="", unit=1.0):
        """The reference scaled along each axis; flat: an axis along which the mesh may collapse.
        -> (points, reference with the same coincidences)"""
        np = W.np
        s = [W.real(f"s{tag}{a}", 1 / 4, 4) for a in range(3)]
        o = [W.real(f"o{tag}{a}", -50, 50) for a in range(3)]
        if unit != 1.0:
            s, o = [v * unit for v in s], [v * unit for v in o]
        ref = self.ref.copy()
        if flat is not None and W.flag(f"flat{tag}"):
            s[flat] = 0.0
            ref[:, flat] = 0.0
        P = np.array([[o[a] + s[a] * float(r[a]) for a in range(3)] for r in self.ref])
        return P, ref


def prism(base, top):
    n = len(base)
    return [tuple(base), tuple(top)] + [(base[i], base[(i + 1) % n], top[(i + 1) % n], top[i]) for i in range(n)]


XY = [(i, j, 0) for j in range(3) for i in range(3)]
G3 = [(i, j, k) for k in range(3) for j in range(2) for i in range(3)]
W3 = [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (0, 1, 1), (0, 0, 2), (1, 0, 2), (0, 1, 2), (1, 1, 0), (1, 1, 1), (1, 1, 2)]

MESHES = {
    # neighbouring faces with the same lowest and highest node and sum of nodes
    "hexa-numbers": M([("hexa", (2, 0, 3, 1, 5, 7, 4, 6)), ("hexa", (5, 7, 4, 6, 9, 8, 11, 10))], [(1, 0, 0), (0, 1, 0), (0, 0, 0), (1, 1, 0), (1, 1, 1), (0, 0, 1), (0, 1, 1), (1, 0, 1), (1, 0, 2), (0, 0, 2), (0, 1, 2), (1, 1, 2)], 3),
    # 0 1 2 / 3 4 5 / 6 7 8
    "mixed-2d": M([("quad", (0, 1, 4, 3)), ("triangle", (1, 2, 5)), ("triangle", (5, 4, 1)), ("pixel", (3, 4, 6, 7)), ("polygon", (4, 5, 8, 7))], XY, 2),
    "pixels-2d": M([("pixel", (0, 1, 3, 4)), ("pixel", (1, 2, 4, 5)), ("pixel", (4, 5, 7, 8))], XY, 2),
    "empty-2d": M([("quad", (0, 1, 4, 3)), ("empty", ()), ("quad", (5, 4, 1, 2)), ("polygon", (3, 4, 5, 8, 7, 6))], XY, 2),
    "non-manifold-2d": M([("triangle", (0, 1, 3)), ("triangle", (1, 0, 6)), ("triangle", (0, 8, 1)), ("triangle", (8, 1, 5))], XY[:6] + [(0, 0, 1), (1, 0, 1), (0, -1, 1)], 2),
    "apart-2d": M([("triangle", (0, 1, 3)), ("quad", (4, 5, 8, 7))], XY, 2),
    "lines": M([("line", (0, 1)), ("polyline", (2, 1, 4, 5)), ("line", (4, 1)), ("polyline", (5, 4, 7))], XY, 1),
    "lines-quad": M([("line", (0, 1)), ("quad", (0, 1, 4, 3)), ("line", (5, 4))], XY, 2),
    "hexas": M([("hexa", (0, 1, 4, 3, 6, 7, 10, 9)), ("hexa", (1, 2, 5, 4, 7, 8, 11, 10)), ("hexa", (6, 7, 10, 9, 12, 13, 16, 15))], G3, 3),
    "voxels": M([("voxel", (0, 1, 3, 4, 6, 7, 9, 10)), ("voxel", (1, 2, 4, 5, 7, 8, 10, 11)), ("voxel", (7, 8, 10, 11, 13, 14, 16, 17))], G3, 3),
    "mixed-3d": M([("hexa", (0, 1, 4, 3, 6, 7, 10, 9)), ("wedge", (1, 2, 4, 7, 8, 10)), ("voxel", (6, 7, 9, 10, 12, 13, 15, 16)), ("pyramid", (7, 10, 16, 13, 8)), ("tetra", (8, 10, 11, 16)), ("polyhedron", prism((2, 5, 4), (8, 11, 10)))], G3, 3),
    "wedges": M([("wedge", (0, 1, 2, 3, 4, 5)), ("wedge", (3, 4, 5, 6, 7, 8)), ("wedge", (1, 9, 2, 4, 10, 5)), ("wedge", (4, 10, 5, 7, 11, 8))], W3, 3),
    "tetras": M([("tetra", (0, 1, 2, 3)), ("tetra", (1, 2, 3, 10)), ("tetra", (1, 9, 2, 10))], W3, 3),
    "pyramids": M([("pyramid", (0, 1, 9, 2, 7)), ("pyramid", (1, 9, 11, 7, 0))], W3, 3),
    "polyhedra": M([("polyhedron", prism((0, 1, 4, 3), (6, 7, 10, 9))), ("polyhedron", prism((1, 2, 5, 4), (7, 8, 11, 10))), ("polyhedron", prism((9, 6, 7, 10), (15, 12, 13, 16)))], G3, 3),
    "twice-2d": M([("quad", (0, 1, 4, 3)), ("polygon", (1, 2, 5, 8, 7, 6, 3, 4))], XY, 2),
    "folded-2d": M([("quad", (0, 1, 4, 3)), ("triangle", (3, 4, 7)), ("polygon", (1, 2, 5, 4, 7, 4))], XY, 2),
    "thin-2d": M([("quad", (0, 1, 3, 2)), ("quad", (2, 3, 5, 4))], [(0, 0, 0), (1, 0, 0), (0, 2.0**-25, 0), (1, 2.0**-25, 0), (0, 1, 0), (1, 1, 0)], 2),
    "twice-3d": M([("polyhedron", prism((1, 2, 5, 8, 7, 6, 3, 4), (10, 11, 14, 17, 16, 15, 12, 13))), ("hexa", (0, 1, 4, 3, 9, 10, 13, 12))], XY + [(i, j, 1) for i, j, _ in XY], 3),
    # three wedges on one facet, and a cell with two nodes at one place
    "non-manifold-3d": M([("wedge", (0, 1, 2, 3, 4, 5)), ("wedge", (0, 1, 6, 3, 4, 7)), ("wedge", (0, 8, 1, 3, 9, 4)), ("tetra", (6, 8, 10, 11))],
                         [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (0, 1, 1), (0, -1, 0), (0, -1, 1), (0.5, 2, 0), (0.5, 2, 1), (3, 3, 3), (3, 3, 3)], 3),
    "tetrahedral": M([("polyhedron", [(0, 1, 2), (0, 1, 3), (1, 2, 3), (0, 2, 3)]), ("tetra", (1, 2, 3, 10)), ("polyhedron", [(1, 9, 2), (1, 9, 10), (9, 2, 10), (1, 2, 10)])], W3, 3),
    "empty-3d": M([("hexa", (0, 1, 4, 3, 6, 7, 10, 9)), ("empty", ()), ("hexa", (1, 2, 5, 4, 7, 8, 11, 10)), ("wedge", (6, 7, 9, 12, 13, 15))], G3, 3),
    "apart-3d": M([("tetra", (0, 1, 3, 6)), ("hexa", (1, 2, 5, 4, 7, 8, 11, 10))], G3 + [], 3),
}


def expected(m, ref, hidden=(), drop=True):
    """[(facet, cells)] of a mesh: node tuples with the ids of the cells holding them."""
    out = {}
    for i, (kind, c) in enumerate(m.cells):
        if i in hidden:
            continue
        for f in facets(kind, c):
            e = out.setdefault(frozenset(f), [f, []])
            if i not in e[1]:
                e[1].append(i)
    if drop:
        out = {k: e for k, e in out.items() if size(ref[list(e[0])]) > 1e-9}
    return list(out.values())


def size(P):
    if len(P) == 2:
        return rnp.linalg.norm(P[1] - P[0])
    v = sum(rnp.cross(a - P[0], b - P[0]) for a, b in zip(P[1:-1], P[2:]))
    return rnp.linalg.norm(v)


def same_cycle(a, b):
    """Two polygons (or segments) with the same nodes in the same cyclic order, either way."""
    a, b = list(a), list(b)
    if len(a) != len(b) or set(a) != set(b):
        return False
    k = b.index(a[0])
    r = b[k:] + b[:k]
    return a == r or a == [r[0]] + r[1:][::-1]
