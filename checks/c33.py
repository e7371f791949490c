"""Voronoi cells: regions that reach infinity are closed beyond the background."""
import types
from fractions import Fraction

from symx.stubs import CLIPS, voronoi_rings

from .lib import *

BOUNDS = "3-5 generators (4 layouts: acute and obtuse triangles, one generator enclosed by three or four others) of any size and position in a rectangular background normal to any axis; generators 1/256 apart; backgrounds of 8-9 cells whose outline has a bump, a dent, both or a hole with a detail of 1/1024 to 1/4"
ASSUMPTIONS = [
    "the diagram given by qhull is correct: its vertices, ridges and regions follow from the layout (replays run the real one)",
    "clipping by the background (GEOS) is abstract in the encoding: the unclipped cells are checked; replays clip them",
]
F = Fraction
U = {
    "acute": [(F(1), F(0)), (F(-3, 5), F(4, 5)), (F(-3, 5), F(-4, 5))],
    "acute2": [(F(0), F(1)), (F(-4, 5), F(-3, 5)), (F(3, 5), F(-4, 5))],
    "obtuse": [(F(1), F(0)), (F(4, 5), F(3, 5)), (F(3, 5), F(4, 5))],
    "obtuse2": [(F(-1), F(0)), (F(-4, 5), F(3, 5)), (F(0), F(1))],
}
# a generator at the origin and others around it, counter-clockwise
AROUND = {
    "three": [(F(1), F(0)), (F(-1, 2), F(1)), (F(-1, 2), F(-3, 4))],
    "four": [(F(1), F(1, 4)), (F(-1, 4), F(1)), (F(-1), F(-1, 8)), (F(1, 8), F(-7, 8))],
}


def circum(a, b):
    """Centre of the circle through the origin, a and b."""
    d = 2 * (a[0] * b[1] - a[1] * b[0])
    na, nb = a[0] ** 2 + a[1] ** 2, b[0] ** 2 + b[1] ** 2
    return ((b[1] * na - a[1] * nb) / d, (a[0] * nb - b[0] * na) / d)


def diagram(layout):
    """Generators, vertices (relative, times the size), regions, ridges."""
    if layout in U:
        u = U[layout]
        g = [(p[0] - u[0][0], p[1] - u[0][1]) for p in u]
        v = [(-u[0][0], -u[0][1])]
        ridges = [((0, 1), (-1, 0)), ((1, 2), (0, -1)), ((0, 2), (-1, 0))]
        return g, v, [[-1, 0], [0, -1], [-1, 0]], ridges
    a = AROUND[layout]
    n = len(a)
    g = [(F(0), F(0))] + a
    v = [circum(a[i], a[(i + 1) % n]) for i in range(n)]
    regions = [list(range(n))] + [[(i - 1) % n, -1, i] for i in range(n)]
    ridges = [((0, i + 1), ((i - 1) % n, i)) for i in range(n)] + [((i + 1, (i + 1) % n + 1), ((-1, i) if i % 2 else (i, -1))) for i in range(n)]
    return g, v, regions, ridges


def cells(W, layout="acute", axis=2, how="default", small=False):
    np, pv, pvg = W.np, W.pv, W.pvg
    R = W.real("R", 1 / 256, 1 / 128) if small else W.real("R", 1 / 2, 1)
    at = (W.real("ox", -50, 50), W.real("oy", -50, 50)) if not W.sym else (0.0, 0.0)
    G, V, regions, ridges = diagram(layout)
    c, t = W.choice("turn", [(F(1), F(0)), (F(3, 5), F(4, 5)), (F(-4, 5), F(3, 5)), (F(5, 13), F(-12, 13)), (F(-1), F(0))])
    G, V = [[(float(c * x - t * y), float(t * x + c * y)) for x, y in q] for q in (G, V)]
    flip = W.choice("flip", [0, 1, 2, 3])
    ridges = [((b, a) if flip & 1 else (a, b), (y, x) if flip & 2 else (x, y)) for (a, b), (x, y) in ridges]
    P = []
    for j in range(2):
        for i in range(2):
            p = [at[0] + 6.0 * i, at[1] + 4.0 * j]
            p.insert(axis, 0.0)
            P.append(p)
    d = [2, 2]
    d.insert(axis, 1)
    v = pvg.VoronoiMesh2D(structured(W, np.array(P), tuple(d)), axis)
    o = (at[0] + 3.0, at[1] + 2.0)
    gens = [(o[0] + R * x, o[1] + R * y) for x, y in G]
    for x, y in gens:
        W.assume(W.and_(x > at[0] + 1e-3, x < at[0] + 6.0 - 1e-3, y > at[1] + 1e-3, y < at[1] + 4.0 - 1e-3))
    v.add([list(p) for p in gens[1:]], group="A")

    def diag(pts):
        k = types.SimpleNamespace()
        k.vertices = [(o[0] + R * x, o[1] + R * y) for x, y in V]
        k.regions = [[]] + regions
        k.point_region = [i + 1 for i in range(len(gens))]
        k.ridge_points = [r[0] for r in ridges]
        k.ridge_vertices = [list(r[1]) for r in ridges]
        return k

    voronoi_rings(W, diag)
    kw = {"default": {}, "infinity": {"infinity": 100.0}, "CW": {"orientation": "CW"}}[how]
    m = v.generate_mesh(**kw)
    n = len(gens)
    W.check("one cell per generator", m.n_cells == n)
    if m.n_cells != n:
        return
    conn, off = [int(x) for x in m.cell_connectivity], [int(x) for x in m.offset]
    u = [a for a in range(3) if a != axis]
    X = [m.cell_data[k] for k in "XYZ"]
    corners = [(0.0, 0.0), (6.0, 0.0), (6.0, 4.0), (0.0, 4.0)]
    total = 0.0
    s = -1.0 if how == "CW" else 1.0
    for i in range(n):
        c = [(m.points[j][u[0]], m.points[j][u[1]]) for j in conn[off[i] : off[i + 1]]]
        p = (X[u[0]][i], X[u[1]][i])
        if W.sym:
            W.eq("generator of the cell", np.array(p), np.array(gens[i]))
            W.check("nodes of the cell", len(c) == len([x for x in regions[i] if x >= 0]) + (2 if -1 in regions[i] else 0))
            for q in gens[:i] + gens[i + 1 :]:
                for x in c:
                    # x is not closer to q than to p
                    a = 2.0 * (x[0] - p[0]) * (q[0] - p[0]) + 2.0 * (x[1] - p[1]) * (q[1] - p[1])
                    b = (q[0] - p[0]) * (q[0] - p[0]) + (q[1] - p[1]) * (q[1] - p[1])
                    W.check("nodes of a cell are closest to its generator", a <= b + 1e-3)
            for x, y in zip(c, c[1:] + c[:1]):
                k = (y[0] - x[0]) * (p[1] - x[1]) - (y[1] - x[1]) * (p[0] - x[0])
                W.check("the cell is convex and holds its generator", s * k > 0.0)
            if -1 in regions[i]:
                # the closing edge leaves the whole background on one side
                for x, y in zip(c, c[1:] + c[:1]):
                    k = [s * ((y[0] - x[0]) * (b - x[1]) - (y[1] - x[1]) * (a - x[0])) for a, b in corners]
                    far = W.and_(*[W.abs(z[0]) + W.abs(z[1]) >= 50.0 for z in (x, y)])
                    W.check("cells reach the limits of the background", W.implies(far, W.and_(*[t > 0.0 for t in k])))
                W.check("two nodes beyond the background", W.or_(*[W.and_(*[W.abs(z[0]) + W.abs(z[1]) >= 50.0 for z in (x, y)]) for x, y in zip(c, c[1:] + c[:1])]))
        else:
            a = 0.0
            for x, y in zip(c[1:-1], c[2:]):
                a += (x[0] - c[0][0]) * (y[1] - c[0][1]) - (x[1] - c[0][1]) * (y[0] - c[0][0])
            total += s * a / 2.0
            for x in c:
                dist = [math.hypot(x[0] - q[0], x[1] - q[1]) for q in gens]
                W.check("nodes of a cell are closest to its generator", math.hypot(x[0] - p[0], x[1] - p[1]) <= min(dist) + 1e-4)
    if not W.sym:
        W.check("cells reach the limits of the background", abs(total - 24.0) <= 1e-3)


def shoelace(c):
    s = 0.0
    for a, b in zip(c, c[1:] + c[:1]):
        s = s + (a[0] * b[1] - a[1] * b[0])
    return s * 0.5


def clipped(W, kind="bump", axis=2):
    """The cells fill the whole background, however slight the details of its outline."""
    np, pv, pvg = W.np, W.pv, W.pvg
    b = W.real("b", 1 / 1024, 1 / 4)
    n = 3
    Q = {(i, j): (2.0 * i, 2.0 * j) for j in range(n + 1) for i in range(n + 1)}
    quads = [(i, j) for j in range(n) for i in range(n)]
    want = 36.0
    if kind == "bump":
        Q[1, 0], want = (2.0, -b), want + 2.0 * b
    elif kind == "dent":
        Q[n, 2], want = (6.0 - b, 4.0), want - 2.0 * b
    elif kind == "both":
        Q[1, 0], Q[2, 0] = (2.0, -b), (4.0, b)
    elif kind == "hole":
        quads.remove((1, 1))
        Q[1, 1], want = (2.0 + b, 2.0), 32.0 + b
    ids = {k: i for i, k in enumerate(Q)}
    P = []
    for x, y in Q.values():
        p = [x, y]
        p.insert(axis, 0.0)
        P.append(p)
    cells = [v for i, j in quads for v in (4, ids[i, j], ids[i + 1, j], ids[i + 1, j + 1], ids[i, j + 1])]
    v = pvg.VoronoiMesh2D(pv.UnstructuredGrid(np.array(cells), np.array([9] * len(quads)), np.array(P)), axis)

    def small(pts):
        return [[(p[0] + x, p[1] + y) for x, y in ((-0.25, -0.25), (0.25, -0.25), (0.25, 0.25), (-0.25, 0.25))] for p in pts]

    voronoi_rings(W, small)
    m = v.generate_mesh()
    W.check("one cell per generator", m.n_cells == len(quads))
    if W.sym:
        # what the cells are clipped by
        for p in {id(a): a for a, _ in CLIPS}.values():
            a = W.abs(shoelace([tuple(x) for x in p.ring]))
            for h in p.holes or []:
                a = a - W.abs(shoelace([tuple(x) for x in np.array(h)]))
            W.check("cells fill the background", W.abs(a - want) <= 1e-4)
    else:
        conn, off = [int(x) for x in m.cell_connectivity], [int(x) for x in m.offset]
        u = [a for a in range(3) if a != axis]
        tot = sum(abs(shoelace([(m.points[j][u[0]], m.points[j][u[1]]) for j in conn[off[i] : off[i + 1]]])) for i in range(m.n_cells))
        W.check("cells fill the background", abs(tot - want) <= 1e-4)


def instances(tier):
    ax = {"acute": 2, "acute2": 0, "obtuse": 1, "obtuse2": 2, "three": 2, "four": 1}
    hows = ["default", "infinity", "CW"]
    out = []
    for i, (l, a) in enumerate(ax.items()):
        for h in hows if tier != "quick" else ["default"] + [hows[1 + i % 2]]:
            out.append(Instance(f"{l}-{h}", cells, f"{l}, axis {a}, {h}", layout=l, axis=a, how=h, replays=6))
    for l in ("acute2", "four"):
        out.append(Instance(f"{l}-small", cells, f"{l}, generators close together", layout=l, axis=2, small=True, replays=6))
    for i, k in enumerate(("bump", "dent", "both", "hole")):
        for a in [(2, 0, 1, 2)[i]] if tier == "quick" else range(3):
            out.append(Instance(f"outline-{k}-axis{a}", clipped, "background of 8-9 cells with a slight detail", kind=k, axis=a, replays=6))
    return out
