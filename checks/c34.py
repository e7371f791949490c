"""Polygons with holes."""
from symx.stubs import gmsh_fault, gmsh_open

from .c31 import index, same_loops
from .c32 import identical
from .lib import *
from .meshes import facets, same_cycle

BOUNDS = "rectangles, L-shapes and triangles of any size and position (also above z = 0), given as 2D or 3D coordinates, closed or not, lines or surfaces; 0-2 holes of any position; each cell type, engine and a given or computed cell size; a failure at each step of the mesher; vertical polygons, polygons far from the origin and three holes"
ASSUMPTIONS = ["gmsh is abstract in the encoding: it returns some triangulation bounded by the loops it was given (replays run the real one)"]
KINDS = {3: "line", 5: "triangle", 7: "polygon", 9: "quad"}


def rings(W, shape, n, far=False):
    x, y = W.real("x", -20, 20), W.real("y", -20, 20)
    if far:
        x, y = 5e5 + x, 4e6 + y
    w, h = W.real("w", 6 if n < 3 else 9, 9 if n < 3 else 12), W.real("h", 4, 6)
    if shape == "rectangle":
        S = [(x, y), (x + w, y), (x + w, y + h), (x, y + h)]
    elif shape == "ell":
        S = [(x, y), (x + w, y), (x + w, y + 2.0), (x + 3.0, y + 2.0), (x + 3.0, y + h), (x, y + h)]
    else:
        S = [(x, y), (x + w, y), (x + 0.5 * w, y + h)]
    H = []
    for k in range(n):
        a, b = W.real(f"a{k}", 1 / 2, 1), W.real(f"b{k}", 1 / 2, 1)
        o = (x + (0.5 + 2.5 * k) + a, y + b)
        if k == 0:
            H.append([o, (o[0] + 0.75, o[1]), (o[0] + 0.75, o[1] + 0.5), (o[0], o[1] + 0.5)])
        else:
            H.append([o, (o[0], o[1] + 0.75), (o[0] + 0.5, o[1] + 0.25)])
    return S, H


def area(R):
    return 0.5 * sum(a[0] * b[1] - b[0] * a[1] for a, b in zip(R, R[1:] + R[:1]))


def outline(m):
    """Edges held by one cell."""
    conn, off = [int(v) for v in m.cell_connectivity], [int(v) for v in m.offset]
    cnt = {}
    for i, t in enumerate(m.celltypes):
        for f in facets(KINDS[int(t)], conn[off[i] : off[i + 1]]):
            cnt.setdefault(frozenset(f), []).append(f)
    return [v[0] for v in cnt.values() if len(v) == 1]


def at(a, b, z, plane):
    p = [z, z, z]
    p[plane[0]], p[plane[1]] = a, b
    return p


def given(W, R, form, z, plane=(0, 1)):
    np, pv = W.np, W.pv
    P3 = [tuple(at(a, b, z, plane)) for a, b in R]
    if form == "2d":
        return [list(p) for p in R]
    if form == "2d-closed":
        return np.array([list(p) for p in R + R[:1]])
    if form == "3d":
        return np.array([list(p) for p in P3])
    if form == "3d-closed":
        return [list(p) for p in P3 + P3[:1]]
    n = len(R)
    if form == "line":
        return pv.PolyData(np.array([list(p) for p in P3]), lines=[n + 1, *range(n), 0])
    if form == "open-line":
        return pv.PolyData(np.array([list(p) for p in P3[::-1]]), lines=[n, *range(n)[::-1]])
    return pv.PolyData(np.array([list(p) for p in P3]), faces=[n, *range(n)])


def polygon(W, shape="rectangle", holes=0, forms=("2d",), celltype=None, engine=None, size=None, plane=(0, 1), far=False):
    np, pvg = W.np, W.pvg
    form = W.choice("form", list(forms))
    S, H = rings(W, shape, holes, far)
    if W.flag("clockwise"):
        S = S[::-1]
    z = W.real("z", -5, 5) if form not in ("2d", "2d-closed") else 0.0
    kw = {}
    if celltype:
        kw["celltype"] = celltype
    if engine:
        kw["engine"] = engine
    if size:
        kw["cellsize"] = size
    m = pvg.Polygon(given(W, S, form, z, plane), [given(W, h, form, z, plane) for h in H] if H else None, **kw)
    W.check("mesher closed", not gmsh_open(W))
    kind = celltype or ("triangle" if H else "polygon")
    types = {int(t) for t in m.celltypes}
    P = [at(a, b, z, plane) for a, b in S]
    L = [P] + [[at(a, b, z, plane) for a, b in h] for h in H]
    if kind == "polygon":
        W.check("one polygon", m.n_cells == 1 and types == {7} and m.n_points == len(S))
        W.eq("nodes in order", m.points[np.array([int(v) for v in m.cell_connectivity])], np.array(P))
        return
    W.check("cell types", types <= ({5} if kind == "triangle" else {5, 9}) and m.n_cells > 0)
    if kind == "quad" and W.sym and engine != "occ":
        W.check("quads", 9 in types)
    out = outline(m)
    pts = [list(p) for p in m.points]
    if W.sym:
        F = [p for l in L for p in l]
        # the node added by the stand-in of the mesher is the last one
        idx = [identical(W, F, p) for p in pts[: len(F)]]
        W.check("nodes of the shell and of the holes", None not in idx and sorted(idx) == list(range(len(F))))
        if None in idx:
            return
        for i, p in zip(idx, pts):
            W.eq("nodes of the shell and of the holes", np.array(p), np.array(F[i]))
        want = set()
        k = 0
        for l in L:
            want |= {frozenset((k + i, k + (i + 1) % len(l))) for i in range(len(l))}
            k += len(l)
        W.check("bounded by the shell and the holes", all(max(e) < len(F) for e in out) and {frozenset((idx[a], idx[b])) for a, b in out} == want)
        return
    import numpy as rnp

    pts = rnp.array(m.points)
    for l in L:
        for p in l:
            W.check("nodes of the shell and of the holes", rnp.abs(pts - rnp.array(p)).max(axis=1).min() < 1e-4)
    segs = [(rnp.array(a), rnp.array(b)) for l in L for a, b in zip(l, l[1:] + l[:1])]
    for e in out:
        mid = pts[list(e)].mean(axis=0)
        d = []
        for a, b in segs:
            t = rnp.clip(rnp.dot(mid - a, b - a) / rnp.dot(b - a, b - a), 0, 1)
            d.append(rnp.linalg.norm(a + t * (b - a) - mid))
        W.check("bounded by the shell and the holes", min(d) < 1e-4)
    # signed: coarse meshes of gmsh may hold inverted cells
    A = abs(sum(area([tuple(pts[int(j)][list(plane)]) for j in c]) for c in (m.get_cell(i).point_ids for i in range(m.n_cells))))
    W.check("area", abs(A - (abs(area(S)) - sum(abs(area(h)) for h in H))) < 1e-3)


def default(W):
    m = W.pvg.Polygon()
    r = W.pv.Polygon()
    W.check("one hexagon", m.n_cells == 1 and m.n_points == 6)


def refused(W):
    pvg = W.pvg
    S, H = rings(W, "rectangle", 1)
    case = W.choice("case", ["celltype", "engine", "holes"])
    f = {"celltype": lambda: pvg.Polygon(S, celltype="hexa"), "engine": lambda: pvg.Polygon(S, celltype="triangle", engine="other"), "holes": lambda: pvg.Polygon(S, H, celltype="polygon")}[case]
    W.check("refused", W.raises(ValueError, f))
    W.check("mesher closed", not gmsh_open(W))


def failing(W):
    """A failure of the mesher leaves it closed, and the next polygon is meshed as usual."""
    pvg = W.pvg
    S, _ = rings(W, "rectangle", 0)
    step = W.choice("step", ["addpoint", "addline", "synchronize", "generate", "getnodes", "getelements"])
    with gmsh_fault(W, step):
        W.check("error passed on", W.raises(Exception, lambda: pvg.Polygon(S, celltype="triangle")))
    W.check("mesher closed", not gmsh_open(W))
    m = pvg.Polygon(S, celltype="triangle")
    W.check("next polygon", m.n_cells >= 2 and len(outline(m)) >= 4)
    if W.sym:
        W.check("nothing left of the failed one", m.n_points == 4)
    else:
        A = abs(sum(area([tuple(m.points[int(j)][:2]) for j in m.get_cell(i).point_ids]) for i in range(m.n_cells)))
        W.check("nothing left of the failed one", abs(A - abs(area(S))) < 1e-3)


def instances(tier):
    q = tier == "quick"
    F = ("2d", "2d-closed", "3d", "3d-closed", "line", "open-line", "face")
    out = [
        Instance("polygon", polygon, "one cell, rectangle", forms=F, replays=14),
        Instance("polygon-ell", polygon, "one cell, L-shape", shape="ell", forms=F, celltype="polygon", replays=14),
        Instance("triangle", polygon, "triangles, triangle", shape="triangle", forms=F, celltype="triangle", replays=6),
        Instance("triangle-ell", polygon, "triangles, L-shape", shape="ell", forms=("3d", "2d-closed"), celltype="triangle", size=2.0, replays=4),
        Instance("quad", polygon, "quads", forms=("2d", "3d-closed"), celltype="quad", replays=4),
        Instance("quad-holes", polygon, "quads, one hole", holes=1, forms=("2d",), celltype="quad", replays=4),
        Instance("hole", polygon, "one hole", holes=1, forms=F, replays=6),
        Instance("holes", polygon, "two holes", holes=2, forms=("2d", "face", "line"), replays=6),
        Instance("occ", polygon, "other engine, two holes", holes=2, forms=("2d", "3d"), engine="occ", replays=4),
        Instance("occ-plain", polygon, "other engine", shape="ell", forms=("2d",), engine="occ", celltype="triangle", replays=2),
        Instance("polygon-xz", polygon, "one cell in a vertical plane", forms=F[2:], plane=(0, 2), replays=10),
        Instance("polygon-yz", polygon, "one cell in a vertical plane", shape="ell", forms=F[2:], plane=(2, 1), replays=10),
        Instance("triangle-yz", polygon, "triangles in a vertical plane", forms=F[2:], plane=(1, 2), celltype="triangle", replays=5),
        Instance("holes-xz", polygon, "two holes in a vertical plane", holes=2, forms=("3d", "line"), plane=(2, 0), replays=4),
        Instance("polygon-far", polygon, "one cell far from the origin", shape="ell", forms=F, far=True, replays=14),
        Instance("three-holes", polygon, "three holes", holes=3, forms=("2d", "line"), replays=4),
        Instance("three-holes-occ", polygon, "three holes, other engine", holes=3, forms=("3d",), engine="occ", replays=2),
        Instance("default", default, "no shell"),
        Instance("refused", refused, "unknown cell type, engine, polygon with holes"),
        Instance("failing", failing, "failure at each step", replays=6),
    ]
    return out
