"""StructuredSurface: geometry, plane layout, data and hidden cells."""
from .lib import *

BOUNDS = "lines of up to 4 nodes with arbitrary coordinates in [-8, 8]^3, up to 3 subdivisions (6 thorough), all six planes, points and segments of a line stored in order and in six other layouts (not necessarily the same for both lines), outlines of polygons, scalar/vector point and cell data; thin cells with gaps down to 2e-7 and collapsed ones"


def surface(W, nl=3, kind="array", planes=PLANES, nmax=2, collapse=False):
    np, pv, pvg = W.np, W.pv, W.pvg
    plane = W.choice("plane", planes)
    a = W.arr("a", (nl, 3), -8, 8)
    b = W.arr("b", (nl, 3), -8, 8)
    # nodes where the two lines touch (cells between two such nodes are collapsed)
    touch = [W.flag(f"touch{i}") for i in range(nl)] if collapse else [False] * nl
    for i in range(nl):
        if touch[i]:
            b[i] = a[i]
    res, method, perc = resolution(W, nmax=nmax)
    la, lb = a, b
    if kind == "poly":
        la, lb = segments(W, a), segments(W, b)
        pd = W.arr("pd", nl, -5, 5)
        pw = W.arr("pw", (nl, 2), -5, 5)
        cd = W.arr("cd", nl - 1, 0, 9, kind="i")
        cv = W.arr("cv", (nl - 1, 2), -5, 5)
        la.point_data["pd"] = pd
        la.point_data["pw"] = pw
        la.cell_data["cd"] = cd
        la.cell_data["cv"] = cv
        lb.point_data["other"] = W.np.zeros(nl)
        pd, pw, cd, cv = pd.copy(), pw.copy(), cd.copy(), cv.copy()
    a0, b0 = rows(a), rows(b)
    m = pvg.StructuredSurface(la, lb, plane, res, method)
    ns = len(perc)
    dims = plane_dims(plane, nl, ns)
    W.check("dimensions", tuple(m.dimensions) == dims)
    W.check("cells", m.n_cells == (nl - 1) * (ns - 1))
    want = [None] * (nl * ns)
    for i in range(nl):
        for j in range(ns):
            want[sidx(dims, *plane_index(plane, i, j))] = lerp(a0[i], b0[i], perc[j])
    W.eq("points", m.points, np.array(want))
    cdims = tuple(max(1, d - 1) for d in dims)
    g = ghost(W, m)
    for i in range(nl - 1):
        for j in range(ns - 1):
            c = sidx(cdims, *plane_index(plane, i, j))
            if touch[i] and touch[i + 1]:
                W.check("collapsed cell is hidden", g[c] == 32)
            if kind == "poly":
                W.check("cell data", m.cell_data["cd"][c] == cd[i])
                W.eq("cell vector data", m.cell_data["cv"][c], cv[i])
    if kind == "poly":
        for i in range(nl):
            for j in range(ns):
                k = sidx(dims, *plane_index(plane, i, j))
                W.eq("point data", m.point_data["pd"][k], pd[i])
                W.eq("point vector data", m.point_data["pw"][k], pw[i])


def visible(W, nl=3, plane="xy", poly=False, nmax=2):
    """A cell is hidden exactly when the two lines meet on both of its sides."""
    np, pv, pvg = W.np, W.pv, W.pvg
    u, v = {"xy": (0, 1), "yx": (1, 0), "xz": (0, 2), "zx": (2, 0), "yz": (1, 2), "zy": (2, 1)}[plane]
    h = []
    for i in range(nl):
        t = W.flag(f"touch{i}")
        x = W.real(f"h{i}", 2e-7, 8)
        h.append(0.0 if t else x)
    down = W.choice("sign", [1.0, -1.0])
    size = W.choice("size", [1.0, 2.0**-12])
    y = W.arr("y", nl, -8, 8)
    off = W.real("off", -1e5, 1e5) if size == 1.0 else 0.0
    a = np.zeros((nl, 3))
    b = np.zeros((nl, 3))
    for i in range(nl):
        a[i, u] = b[i, u] = float(i) * size
        a[i, v] = y[i] + off
        b[i, v] = y[i] + off + down * h[i]
    n = W.choice("n", list(range(1, nmax + 1)))
    la, lb = (segments(W, a), segments(W, b)) if poly else (a, b)
    m = pvg.StructuredSurface(la, lb, plane, n)
    dims = plane_dims(plane, nl, n + 1)
    cdims = tuple(max(1, d - 1) for d in dims)
    g = m.cell_data["vtkGhostType"]
    for i in range(nl - 1):
        for j in range(n):
            c = sidx(cdims, *plane_index(plane, i, j))
            flat = (not is_pos(h[i])) and (not is_pos(h[i + 1]))
            W.check("hidden" if flat else "visible", g[c] == (32 if flat else 0))


LINES = {
    # cells of a line whose points are stored in another order, and the points along it
    "polyline": ([[3, 1, 0, 2]], None, [3, 1, 0, 2]),
    "segments": ([[3, 1], [0, 2], [1, 0]], None, [3, 1, 0, 2]),
    "first": ([[3, 1, 2], [4, 0]], None, [3, 1, 2]),
    "polygon": (None, [[2, 0, 3, 1]], [2, 0, 3, 1, 2]),
    "polygons": (None, [[4, 0, 3], [1, 2, 3]], [4, 0, 3, 4]),
}


def mixed(W, planes=PLANES):
    """The nodes of two lines correspond along the lines, although they are stored differently."""
    np, pv, pvg = W.np, W.pv, W.pvg
    plane = W.choice("plane", planes)
    n = 4
    a, b = W.arr("a", (n, 3), -8, 8), W.arr("b", (n, 3), -8, 8)
    stored = {"array": None, "polyline": [0, 1, 2, 3], "segments": [0, 1, 2, 3], "reversed": [3, 2, 1, 0], "shuffled": [2, 0, 3, 1]}

    def mk(p, how):
        ids = stored[how]
        if ids is None:
            return p.copy()
        q = np.zeros((n, 3))
        for i, k in enumerate(ids):
            q[k] = p[i]
        if how == "segments":
            return segments(W, q)
        return pv.PolyData(q, lines=[n, *ids])

    ka, kb = W.choice("a is", list(stored)), W.choice("b is", list(stored))
    m = pvg.StructuredSurface(mk(a, ka), mk(b, kb), plane, 2)
    dims = plane_dims(plane, n, 3)
    W.check("dimensions", tuple(m.dimensions) == dims)
    want = [None] * (3 * n)
    for i in range(n):
        for j in range(3):
            want[sidx(dims, *plane_index(plane, i, j))] = lerp(a[i], b[i], j / 2)
    W.eq("points", m.points, np.array(want))


def order(W, name, planes=PLANES, verts=0):
    """Data follow the nodes and cells along the line, whatever the order in which they are stored."""
    np, pv, pvg = W.np, W.pv, W.pvg
    lines, faces, ids = LINES[name]
    plane = W.choice("plane", planes)
    n = 1 + max(i for c in lines or faces for i in c)
    a, b = W.arr("a", (n, 3), -8, 8), W.arr("b", (n, 3), -8, 8)
    flat = lambda cells: [x for c in cells for x in (len(c), *c)]
    kw = dict(verts=[v for i in range(verts) for v in (1, n - 1 - i)]) if verts else {}
    mk = lambda p: pv.PolyData(p, lines=flat(lines), **kw) if lines else pv.PolyData(p, faces=flat(faces), **kw)
    la, lb = mk(a.copy()), mk(b.copy())
    pd, pw = W.arr("pd", n, -5, 5), W.arr("pw", (n, 2), -5, 5)
    nc = verts + len(lines or faces)
    cd, cv = W.arr("cd", nc, 0, 9, kind="i"), W.arr("cv", (nc, 2), -5, 5)
    la.point_data["pd"], la.point_data["pw"] = pd.copy(), pw.copy()
    la.cell_data["cd"], la.cell_data["cv"] = cd.copy(), cv.copy()
    m = pvg.StructuredSurface(la, lb, plane, 2)
    nl = len(ids)
    dims = plane_dims(plane, nl, 3)
    W.check("dimensions", tuple(m.dimensions) == dims)
    edge = {frozenset(e): c for c, cell in reversed(list(enumerate(lines or [f + f[:1] for f in faces]))) for e in zip(cell[:-1], cell[1:])}
    cdims = tuple(max(1, d - 1) for d in dims)

    def along(ids):
        same = lambda x, y: W.and_(*[W.abs(u - v) <= 1e-5 for u, v in zip(x, y)])
        out = []
        for i in range(nl):
            for j in range(3):
                k = sidx(dims, *plane_index(plane, i, j))
                out.append(same(m.points[k], lerp(a[ids[i]], b[ids[i]], j / 2)))
                out.append(same([m.point_data["pd"][k], *m.point_data["pw"][k]], [pd[ids[i]], *pw[ids[i]]]))
                if i < nl - 1 and j < 2:
                    c = sidx(cdims, *plane_index(plane, i, j))
                    e = verts + edge[frozenset((ids[i], ids[i + 1]))]
                    out.append(same([m.cell_data["cd"][c], *m.cell_data["cv"][c]], [cd[e], *cv[e]]))
        return W.and_(*out)

    # a line may be followed from either end
    W.check("nodes and data along the line", W.or_(along(ids), along(ids[::-1])) if lines else along(ids))


def aligned(W, plane="xy"):
    """A cell without area is hidden although its lines do not coincide."""
    np, pvg = W.np, W.pvg
    u, v = {"xy": (0, 1), "yx": (1, 0), "xz": (0, 2), "zx": (2, 0), "yz": (1, 2), "zy": (2, 1)}[plane]
    y, h = W.real("y", -8, 8), W.real("h", 0.001, 8)
    last = W.choice("last", [0.0, h, -h])
    shift = W.real("shift", 1 / 4, 8)
    x = [0.0, W.real("dx", 1 / 4, 4), 5.0]
    a, b = np.zeros((3, 3)), np.zeros((3, 3))
    for i in range(3):
        a[i, u], b[i, u] = x[i], x[i] + shift
        a[i, v], b[i, v] = y, y + (last if i == 2 else 0.0)
    n = W.choice("n", [1, 2])
    m = pvg.StructuredSurface(a, b, plane, n)
    cdims = tuple(max(1, d - 1) for d in plane_dims(plane, 3, n + 1))
    g = m.cell_data["vtkGhostType"]
    for j in range(n):
        W.check("no area: hidden", g[sidx(cdims, *plane_index(plane, 0, j))] == 32)
        W.check("hidden without area only", g[sidx(cdims, *plane_index(plane, 1, j))] == (0 if is_pos(last) else 32))


def is_pos(x):
    return not (isinstance(x, float) and x == 0.0)


def segments(W, a):
    n = len(a)
    return W.pv.PolyData(a, lines=[x for i in range(n - 1) for x in (2, i, i + 1)])


def refused(W):
    pvg = W.pvg
    bad = W.choice("bad", ["plane", "length"])
    a = W.arr("a", (3, 3), -8, 8)
    b = W.arr("b", (3, 3), -8, 8)
    if bad == "plane":
        W.check("unknown plane is refused", W.raises(ValueError, pvg.StructuredSurface, a, b, W.choice("p", ["xx", "zz", "x", "yxz"])))
    else:
        W.check("inhomogeneous lines are refused", W.raises(ValueError, pvg.StructuredSurface, a, b[:2], "xy"))


def instances(tier):
    q = tier == "quick"
    nmax = 2 if q else 5
    out = []
    for p in PLANES:
        out.append(Instance(f"poly-{p}", surface, f"3-node lines, plane {p}, <= {nmax} subdivisions", nl=3, kind="poly", planes=[p], nmax=nmax))
        out.append(Instance(f"visible-{p}", visible, f"3-node lines meeting at any subset of nodes, plane {p}", plane=p, poly=True, nmax=2 if q else 3))
        out.append(Instance(f"aligned-{p}", aligned, f"3-node lines, partly aligned, plane {p}", plane=p, replays=8))
    out.append(Instance("array", surface, "4-node lines given as arrays, any plane", nl=4, kind="array", planes=PLANES, nmax=nmax))
    out.append(Instance("two-nodes", surface, "2-node lines, any plane", nl=2, kind="poly", planes=PLANES, nmax=nmax))
    out.append(Instance("touching", surface, "3-node lines touching at any subset of nodes, arbitrary geometry", nl=3, kind="array", planes=PLANES if not q else ["xy", "zx"], nmax=1, collapse=True))
    for k in LINES:
        out.append(Instance(f"order-{k}", order, "lines of up to 4 segments stored in any order, polygons", name=k, planes=["xy", "zx"] if q else PLANES))
    for k in ("polyline", "segments", "polygons"):
        out.append(Instance(f"order-{k}-points", order, "cells of single points before the line or polygon", name=k, planes=["xy"] if q else PLANES, verts=2))
    out.append(Instance("mixed", mixed, "4-node lines stored differently", planes=["xy", "zx"] if q else PLANES, replays=16))
    out.append(Instance("refused", refused, "invalid arguments"))
    return out
