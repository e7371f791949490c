"""Circles and polylines added to Voronoi meshes."""
from .lib import *

BOUNDS = "circles of any radius, constraint radius and centre (2D or 3D, or none), 3-6 subdivisions or explicit ones, in planes normal to any axis; polylines of 2-4 points at any position (given as points or lines, one or two at once) with any width and padding, 0-2 constraint points at each end, 1-3 subdivisions or explicit ones, cells or points"
ASSUMPTIONS = ["segments of a polyline follow a few fixed directions, their lengths and position being free"]


def bg(W, axis):
    np = W.np
    P = []
    for j in range(2):
        for i in range(2):
            p = [40.0 * i - 20.0, 40.0 * j - 20.0]
            p.insert(axis, 0.0)
            P.append(p)
    d = [2, 2]
    d.insert(axis, 1)
    return structured(W, np.array(P), tuple(d))


def put(p, axis, h=0.0):
    q = list(p)
    q.insert(axis, h)
    return q


def cell_nodes(m):
    """Nodes of each cell, as points."""
    if hasattr(m, "dimensions"):
        m = m.cast_to_unstructured_grid()
    conn, off = [int(v) for v in m.cell_connectivity], [int(v) for v in m.offset]
    return [[list(m.points[j]) for j in conn[off[i] : off[i + 1]]] for i in range(len(off) - 1)]


def identical(W, P, q):
    """The point of P that is the same expression as q, or None."""
    for i, p in enumerate(P):
        d = [a - b for a, b in zip(p, q)]
        if all(type(x).__name__ in ("float", "int", "float64", "float32", "Fraction") and abs(float(x)) < (1e-9 if W.sym else 1e-4) for x in d):
            return i
    return None


def match(W, label, got, want, tol=1e-6):
    """The same sets of points, in any order."""
    W.check(f"{label}: number", len(got) == len(want))
    if len(got) == len(want):
        for w in want:
            i = identical(W, got, w)
            if i is not None:
                W.eq(label, W.np.array(got[i]), W.np.array(w))
                continue
            W.check(label, W.or_(*[same_point(W, g, w, tol if W.sym else 1e-4) for g in got]))


def circle(W, axis=2, res=4, constraint="free", center="2d"):
    np, pvg = W.np, W.pvg
    r = W.real("r", 1 / 2, 4)
    if constraint == "default":
        c, arg = 1.5 * r, None
    elif constraint == "equal":
        c = arg = r
    else:
        c = arg = W.real("c", 3 / 4, 7)
        W.assume(W.and_(c >= r + 1 / 8, c <= 2 * r - 1 / 8))
    dr = c - r
    o = [W.real("ox", -5, 5), W.real("oy", -5, 5)] if center != "none" else [0.0, 0.0]
    cen = {"none": None, "2d": o, "3d": put(o, axis, W.real("oz", -5, 5) if center == "3d" else 0.0)}[center]
    prio = W.int("prio", -2, 2)
    plain = W.flag("plain")
    v = pvg.VoronoiMesh2D(bg(W, axis), axis)
    v.add_circle(r, arg, res, cen, plain, prio, "C")
    th = [2.0 * math.pi * i / res for i in range(res + 1)] if isinstance(res, int) else [2.0 * math.pi * t for t in res]
    n = len(th) - 1

    def at(rad, i):
        return put((o[0] + rad * math.cos(th[i]), o[1] + rad * math.sin(th[i])), axis)

    def mean(P):
        return [sum(x) / float(len(P)) for x in zip(*P)]

    ri = r if constraint == "equal" else r - dr
    want = [mean([put(o, axis), at(ri, i), at(ri, i + 1)]) for i in range(n)]
    outer = []
    if constraint != "equal":
        want += [mean([at(ri, i), at(ri, i + 1), at(r, i + 1), at(r, i)]) for i in range(n)]
        outer = [mean([at(r, i), at(r, i + 1), at(r + dr, i + 1), at(r + dr, i)]) for i in range(n)]
    items = v.items
    W.check("items", len(items) == (1 if constraint == "equal" else 2))
    match(W, "generators of the circle", [mean(c) for c in cell_nodes(items[0].mesh)], want)
    W.check("group and priority", items[0].group == "C" and int(W.val(items[0].priority)) == int(W.val(prio)))
    if outer:
        match(W, "generators around the circle", [mean(c) for c in cell_nodes(items[1].mesh)], outer)
        W.check("group and priority of the constraint", items[1].group is None and items[1].priority == 0)
    W.check("fused cells", len(v.fuse_cells) == (1 if plain else 0))
    if plain:
        x = [W.real("x", -12, 12), W.real("y", -12, 12)]
        d2 = (x[0] - o[0]) * (x[0] - o[0]) + (x[1] - o[1]) * (x[1] - o[1])
        W.assume(W.abs(d2 - r * r) >= 1e-3)
        f = v.fuse_cells[0](np.array([put(x, axis)]))
        W.check("cells within the circle are fused", W.iff(f[0], d2 < r * r))


def invalid(W):
    pvg = W.pvg
    r, c = W.real("r", 1 / 2, 4), W.real("c", 0, 4)
    W.assume(c < r)
    v = pvg.VoronoiMesh2D(bg(W, 2))
    W.check("refused", W.raises(ValueError, lambda: v.add_circle(r, c, 4)))
    W.check("nothing added", len(v.items) == 0)


def line(W, tag, n, axis, straight, some=False):
    """Points of a polyline in the plane."""
    P = [[W.real(f"{tag}x", -5, 5), W.real(f"{tag}y", -5, 5)]]
    if straight:
        d = W.choice(f"{tag}dir", [(1.0, 0.0), (0.0, -1.0), (3.0, 4.0), (-4.0, 3.0)])
        for i in range(n - 1):
            s = W.real(f"{tag}s{i}", 1 / 4, 2)
            P.append([P[-1][0] + s * d[0], P[-1][1] + s * d[1]])
    else:
        dirs = W.choice(f"{tag}dirs", [((1.0, 0.0), (3.0, 4.0), (0.0, 1.0)), ((-4.0, 3.0), (-4.0, -3.0), (3.0, -4.0)), ((0.0, -1.0), (4.0, -3.0), (3.0, 4.0))])
        for i in range(n - 1):
            s = W.real(f"{tag}s{i}", 1 / 4, 2) if i == 0 or not some else 1.25
            P.append([P[-1][0] + s * dirs[i][0], P[-1][1] + s * dirs[i][1]])
    return P


def polyline(W, n=3, axis=2, pref=None, form="points", straight=True, res=None, cons=None, lines=1, some=False):
    np, pv, pvg = W.np, W.pv, W.pvg
    w = W.real("w", 1 / 4, 3)
    pad = W.choice("padded", [False, True]) if pref in (None, "cell") else False
    padding = W.real("pad", 0, 2) if pad else None
    h = 2.0
    Ls = [line(W, f"p{k}", n, axis, straight, some) for k in range(lines)]
    prio = W.choice("prio", [None, 2, -1])
    kw = {}
    if pref:
        kw["preference"] = pref
    if cons is not None:
        kw["constraint"] = cons
    if padding is not None:
        kw["padding"] = padding
    if res is not None:
        kw["resolution"] = res
    if form == "points":
        arg = np.array([put(p, axis, h) for p in Ls[0]])
    else:
        arg = pv.PolyData(np.array([put(p, axis, h) for L in Ls for p in L]), lines=[v for k in range(lines) for v in (n, *range(k * n, k * n + n))])
    v = pvg.VoronoiMesh2D(bg(W, axis), axis)
    v.add_polyline(arg, w, priority=prio, group="L", **kw)
    cs, ce = (1, 1) if cons is None else (cons, cons) if isinstance(cons, int) else cons
    pc = [0.0, 1.0] if res is None else [i / res for i in range(res + 1)] if isinstance(res, int) else list(res)
    pc = [2.0 * pc[0] - pc[1]] + pc + [2.0 * pc[-1] - pc[-2]]
    W.check("items", len(v.items) == 2 * lines)
    if len(v.items) != 2 * lines:
        return
    for k, L in enumerate(Ls):
        C = np.array(L)
        if pref in (None, "cell"):
            d = padding if pad else 0.5 * w
            a, b = C[0] - C[1], C[-1] - C[-2]
            C = np.vstack((C[0] + d * a / np.linalg.norm(a), 0.5 * (C[:-1] + C[1:]), C[-1] + d * b / np.linalg.norm(b)))
        N = len(C)
        f, g = C[1] - C[0], C[N - 1] - C[N - 2]
        C = [list(C[0] - (cs - i) * f) for i in range(cs)] + [list(c) for c in C] + [list(C[N - 1] + (i + 1) * g) for i in range(ce)]
        N = len(C)
        B = []
        for i in range(N):
            a, b = C[max(i - 1, 0)], C[min(i + 1, N - 1)]
            k_ = 0.5 if 0 < i < N - 1 else 1.0
            c = np.array([k_ * (a[1] - b[1]), k_ * (b[0] - a[0])])
            # the ends take the direction of their segment
            u = c / np.linalg.norm(c)
            B.append([[C[i][m] + (t - 0.5) * w * u[m] for m in range(2)] for t in pc])
        band, rest = [], []
        for i in range(N - 1):
            for j in range(len(pc) - 1):
                q = [put(x, axis) for x in (B[i][j], B[i + 1][j], B[i + 1][j + 1], B[i][j + 1])]
                (band if cs <= i < N - 1 - ce and 0 < j < len(pc) - 2 else rest).append(q)
        for label, it, want in (("band", v.items[2 * k], band), ("constraint", v.items[2 * k + 1], rest)):
            got = cell_nodes(it.mesh)
            W.check(f"{label}: number of cells", len(got) == len(want))
            if len(got) != len(want):
                continue
            match(W, f"{label}: generators", [[sum(x) / 4.0 for x in zip(*g)] for g in got], [[sum(x) / 4.0 for x in zip(*cw)] for cw in want])
        W.check("group and priority", v.items[2 * k].group == "L" and v.items[2 * k].priority == (prio or 0) and v.items[2 * k + 1].group is None and v.items[2 * k + 1].priority == 0)


def instances(tier):
    q = tier == "quick"
    out = [Instance(f"circle-{a}-{c}-{s}-{len(r) if isinstance(r, list) else r}", circle, f"{r} subdivisions, centre {s}", axis=a, res=r, constraint=c, center=s, replays=8) for a, r, c, s in
           [(2, 4, "free", "2d"), (2, 3, "default", "none"), (1, 4, "free", "3d"), (0, 3, "equal", "2d"), (2, 4, "equal", "3d"), (0, [0.0, 0.3, 0.5, 1.0], "free", "3d"), (1, 4, "default", "2d")]]
    out.append(Instance("circle-invalid", invalid, "constraint radius below the radius"))
    ps = [dict(n=3, axis=2), dict(n=2, axis=1, cons=0), dict(n=3, axis=0, cons=(2, 1), form="lines"), dict(n=3, axis=2, pref="point", res=2), dict(n=2, axis=1, pref="point", cons=2), dict(n=3, axis=2, form="lines", lines=2, cons=(0, 1)), dict(n=3, res=[0.0, 0.25, 1.0]), dict(n=3, straight=False, pref="point", cons=(1, 0)), dict(n=2 if q else 3, axis=1, straight=False, pref="cell", cons=0), dict(n=4, straight=False, pref="point", cons=(0, 2))]
    if q:
        for p in ps:
            p["some"] = True
    for i, p in enumerate(ps):
        out.append(Instance(f"polyline-{i}", polyline, ", ".join(f"{k}={v}" for k, v in p.items()), replays=8, **p))
    return out
