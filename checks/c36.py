"""Rays and lines through meshes."""
from .lib import *
from .meshes import *

BOUNDS = "rays of fixed directions and symbolic start through meshes of 2-6 cells (triangles, quads, pixels, tetrahedra, wedges, pyramids, hexahedra, voxels, polyhedra) at symbolic places, and through grids of up to 3 x 2 x 2 boxes of symbolic sizes; crossings at least 1/64 away from the rim of facets; symbolic limit of the angle; hidden cells"
GAP = 1 / 64


def crossing(W, a, D, F):
    """(crosses, point, angle with the normal) of the segment a, a + D and a convex facet; the limits are left out."""
    if len(F) == 2:
        p, q = F
        e = sub(q, p)
        ax = next(k for k in range(3) if all(not W_sym(x[k] - p[k]) and abs(float(x[k] - p[k])) < 1e-9 for x in (q, a)) and D[k] == 0.0)
        u, v = [k for k in range(3) if k != ax]
        turn = lambda o, x, y: (x[u] - o[u]) * (y[v] - o[v]) - (x[v] - o[v]) * (y[u] - o[u])
        b = [x + y for x, y in zip(a, D)]
        L = [turn(a, b, p), turn(a, b, q), turn(p, q, a), turn(p, q, b)]
        W.assume(W.and_(*[W.abs(x) >= GAP for x in L]))
        hit = W.and_(W.or_(W.and_(L[0] > 0, L[1] < 0), W.and_(L[0] < 0, L[1] > 0)), W.or_(W.and_(L[2] > 0, L[3] < 0), W.and_(L[2] < 0, L[3] > 0)))
        return hit, lambda: (a, D, p, e, u, v), None
    n = normal(F)
    den = sum(x * y for x, y in zip(n, D))
    da = dot(n, sub(a, F[0]))
    angle = rnp.degrees(rnp.arccos(min(1.0, abs(den) / rnp.linalg.norm(n) / rnp.linalg.norm(D))))
    if abs(den) < 1e-9:
        W.assume(W.abs(da) >= GAP)
        return False, None, 90.0
    t = da * (-1.0 / den)
    W.assume(W.or_(t <= -GAP, W.and_(t >= GAP, t <= 1.0 - GAP), t >= 1.0 + GAP))
    X = [x + t * y for x, y in zip(a, D)]
    k = [dot(n, cross(sub(q, p), sub(X, p))) for p, q in zip(F, F[1:] + F[:1])]
    inside = W.and_(*[x >= GAP for x in k])
    W.assume(W.or_(inside, W.or_(*[x <= -GAP for x in k])))
    return W.and_(inside, t > 0.0, t < 1.0), X, angle


def W_sym(x):
    return hasattr(x, "p") and hasattr(x, "key")


def normal(F):
    d = [sub(q, F[0]) for q in F[1:]]
    n = rnp.zeros(3)
    for u, v in zip(d[:-1], d[1:]):
        n = n + rnp.array([float(x) for x in cross(u, v)])
    return [float(x) for x in n]


def on_line(W, X, a, D, p, e, u, v):
    """X lies on both lines (in the plane u, v)."""
    c1 = (X[u] - a[u]) * D[v] - (X[v] - a[v]) * D[u]
    c2 = (X[u] - p[u]) * e[v] - (X[v] - p[v]) * e[u]
    return W.and_(W.abs(c1) <= 1e-6, W.abs(c2) <= 1e-6)


def limit(W):
    """The largest angle between the ray and the normal of a face: none, or any."""
    return W.real("max_angle", 1, 89) if W.flag("limited") else None


# direction of the ray and where it starts
RAYS = {
    3: [
        ((5.0, 0.5, 0.75), ((-1.5, -1), (-0.25, 0.75), (0.25, 0.875))),
        ((-4.0, 1.5, 2.0), ((1.5, 3), (-0.5, 0.5), (0, 0.5))),
        ((0.25, -0.5, 4.0), ((0, 1.75), (0.25, 1.25), (-1.5, 0.5))),
        ((6.0, 0.0, 0.0), ((-4.5, 0.5), (0.25, 0.75), (-0.25, 1.5))),
        ((6.0, 0.0625, 0.125), ((-2, -1), (0.25, 0.5), (0.75, 1.25))),
    ],
    2: [
        ((4.0, 1.0, 0.0), ((-1.5, -1), (-1, 2), (0, 0))),
        ((-1.0, 3.0, 0.0), ((0, 3), (-0.5, 0.5), (0, 0))),
        ((0.0, -5.0, 0.0), ((0, 2), (1.25, 3), (0, 0))),
        ((6.0, 0.125, 0.0), ((-2, -1), (0.75, 1.25), (0, 0))),
    ],
}


def ray(W, mesh="hexas", rays=None, hide=False):
    np, pv, pvg = W.np, W.pv, W.pvg
    m = MESHES[mesh]
    o = W.arr("o", 3, -50, 50)
    P = np.array([[o[k] + float(r[k]) for k in range(3)] for r in m.ref])
    D, box = W.choice("ray", RAYS[m.dim] if rays is None else [RAYS[m.dim][i] for i in rays])
    r0 = [W.real(f"r{k}", *b) if b[0] < b[1] else b[0] for k, b in enumerate(box)]
    a = [o[k] + r0[k] for k in range(3)]
    b = [a[k] + D[k] for k in range(3)]
    lim = limit(W) if m.dim == 3 else None
    u = m.build(W, P)
    if hide:
        # what is hidden is crossed all the same
        h = W.choice("hidden", list(range(len(m.cells))))
        u.cell_data["vtkGhostType"] = np.array([32 if i == h else 0 for i in range(len(m.cells))], dtype=np.uint8)
    want = []
    loc = lambda f: [[r0k - r0k + float(x) for x, r0k in zip(m.ref[j], (0.0, 0.0, 0.0))] for j in f]
    for f, cells in expected(m, m.ref, drop=False):
        hit, X, angle = crossing(W, r0, D, loc(f))
        if lim is not None:
            W.assume(W.abs(lim - angle) >= GAP)
            if W.known(lim <= angle):
                continue
        if W.val(hit) if W_bool(hit) else hit:
            want.append((X, cells))
    kw = {} if lim is None else dict(max_angle=lim)
    r = pvg.ray_cast(u, np.array(a), np.array(b), **kw)
    if not want:
        W.check("nothing crossed", r is None)
        return
    W.check("one entry per facet crossed", r is not None and r.n_cells == len(want))
    ids, pts = r.cell_data["vtkOriginalCellIds"], r.cell_data["IntersectionPoints"]
    got = [(sorted(int(v) for v in c if int(v) != -1), [p[k] - o[k] for k in range(3)]) for c, p in zip(ids, pts)]
    for X, cells in want:
        same = [p for c, p in got if c == cells]
        if callable(X):
            ok = [on_line(W, p, *X()) for p in same]
        else:
            ok = [same_point(W, p, X, 1e-5) for p in same]
        W.check("crossing with its cells", W.or_(*ok) if ok else False)
    W.check("input kept", u.n_cells == len(m.cells) and "vtkOriginalCellIds" not in u.cell_data)


SHEET = [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (2, 0, 1), (2, 1, 1), (0, 0, 2), (1, 0, 2), (0.5, 1, 2.5), (0, 2, 1)]
FACES = [(0, 1, 2, 3), (1, 4, 5, 2), (6, 7, 8), (3, 2, 9)]
EDGES = [(0, 1), (2, 3), (1, 2), (3, 0), (4, 5)]
FLAT = [(0, 0, 0), (2, 0, 0), (2, 1, 0), (0, 2, 0), (-1, 1, 0), (3, 2, 0)]


def own(W, kind="faces"):
    """Rays through the faces or the lines of a surface mesh: its own cells."""
    np, pv, pvg = W.np, W.pv, W.pvg
    o = W.arr("o", 3, -50, 50)
    ref, cells = (SHEET, FACES) if kind == "faces" else (FLAT, EDGES)
    P = np.array([[o[k] + float(r[k]) for k in range(3)] for r in ref])
    flat = np.array([v for c in cells for v in (len(c), *c)])
    poly = pv.PolyData(P, faces=flat) if kind == "faces" else pv.PolyData(P, lines=flat)
    poly.cell_data["tag"] = np.array([float(i) for i in range(len(cells))])
    D, box = W.choice("ray", RAYS[3][:3] + [((0.5, 0.25, 4.0), ((-0.5, 1.5), (-0.5, 1.5), (-1, -0.5)))] if kind == "faces" else RAYS[2])
    r0 = [W.real(f"r{k}", *b) if b[0] < b[1] else b[0] for k, b in enumerate(box)]
    a = [o[k] + r0[k] for k in range(3)]
    b = [a[k] + D[k] for k in range(3)]
    lim = limit(W) if kind == "faces" else None
    want = []
    for i, f in enumerate(cells):
        hit, X, angle = crossing(W, r0, D, [[float(x) for x in ref[j]] for j in f])
        if lim is not None:
            W.assume(W.abs(lim - angle) >= GAP)
            if W.known(lim <= angle):
                continue
        if W.val(hit) if W_bool(hit) else hit:
            want.append((i, X))
    r = pvg.ray_cast(poly, np.array(a), np.array(b), **({} if lim is None else dict(max_angle=lim)))
    if not want:
        W.check("nothing crossed", r is None)
        return
    W.check("one entry per cell crossed", r is not None and r.n_cells == len(want) and [int(v) for v in r.cell_data["vtkOriginalCellIds"]] == [i for i, _ in want])
    for p, (i, X) in zip(r.cell_data["IntersectionPoints"], want):
        p = [p[k] - o[k] for k in range(3)]
        W.check("crossing of each cell", on_line(W, p, *X()) if callable(X) else same_point(W, p, X, 1e-5))
    for i, (j, _) in enumerate(want):
        q = r.get_cell(i).points
        W.check("shape of each cell", len(q) == len(cells[j]) and W.and_(*[W.or_(*[same_point(W, x, P[v], 1e-6) for x in q]) for v in cells[j]]))
    W.eq("input kept", poly.points, P)


def refused(W):
    """No ray cast through a surface of both faces and lines."""
    np, pv, pvg = W.np, W.pv, W.pvg
    x = W.real("x", -50, 50)
    P = np.array([[x + float(r[0]), float(r[1]), float(r[2])] for r in SHEET])
    poly = pv.PolyData(P, faces=np.array([4, 0, 1, 2, 3]), lines=np.array([2, 6, 7]))
    h = W.real("h", 0, 1)
    W.check("faces and lines refused", W.raises(ValueError, pvg.ray_cast, poly, np.array([x, h, -1.0]), np.array([x, h, 3.0])))


def W_bool(x):
    return not isinstance(x, (bool, rnp.bool_))


def W_less(W, a, b):
    c = a < b
    return bool(W.val(c)) if W_bool(c) else bool(c)


def polyline(W, n=(3, 2, 1), ray=((7.0, 0.75, 0.25), ((-1, 0.5), (0.25, 0.75), (0.25, 0.5))), cuts=((), (0.5,)), segments=False, flags=False, kind="structured"):
    """A straight line, subdivided or not, through a grid of boxes."""
    np, pv, pvg = W.np, W.pv, W.pvg
    o = W.arr("o", 3, -50, 50)
    D, box = ray
    g = []
    for k in range(3):
        x = [0.0]
        for j in range(n[k]):
            x.append(x[-1] + (W.real(f"w{k}{j}", 3 / 4, 2) if k == 0 or j == 0 else 1.0))
        g.append(x)
    a = [W.real(f"a{k}", *b) for k, b in enumerate(box)]
    ts = [0.0, *W.choice("cuts", list(cuts)), 1.0]
    # parameters at which the line crosses the planes of the grid
    cr = []
    for k in range(3):
        if D[k] == 0.0:
            W.assume(W.and_(*[W.abs(a[k] - x) >= GAP for x in g[k]]))
            continue
        for i, x in enumerate(g[k]):
            t = (x - a[k]) * (1.0 / D[k])
            W.assume(W.and_(*[W.abs(t - u) >= GAP for u in ts]))
            W.assume(W.and_(*[W.abs(t - u) >= GAP for u, _, _ in cr]))
            cr.append((t, k, i))
    order = []
    for c in cr:
        if W_less(W, c[0], 0.0) or W_less(W, 1.0, c[0]):
            continue
        p = 0
        while p < len(order) and W_less(W, order[p][0], c[0]):
            p += 1
        order.insert(p, c)
    at = []
    for k in range(3):
        at.append(sum(W_less(W, x, a[k]) for x in g[k]) - 1)
    cell = lambda: -1 if any(i < 0 or i >= m for i, m in zip(at, n)) else at[0] + n[0] * (at[1] + n[1] * at[2])
    pieces, t0 = [], 0.0
    for t, k, i in order:
        pieces.append((t0, t, cell()))
        at[k], t0 = (i if D[k] > 0 else i - 1), t
    pieces.append((t0, 1.0, cell()))
    # the line is cut at its own nodes outside the mesh only, and not by planes out of the mesh
    want = []
    for p in pieces:
        if p[2] == -1 and want and want[-1][2] == -1:
            want[-1] = (want[-1][0], p[1], -1)
        else:
            want.append(p)
    G = np.array([[o[0] + x, o[1] + y, o[2] + z] for z in g[2] for y in g[1] for x in g[0]])
    mesh = structured(W, G, [m + 1 for m in n])
    if kind != "structured":
        mesh = mesh.cast_to_unstructured_grid()
    cut(W, mesh, G, o, a, D, ts, want, segments, flags)


def through(W, mesh="tetras", rays=None, cuts=((), (0.5,)), segments=False, flags=False):
    """A straight line, subdivided or not, from out of a mesh of other cells."""
    np = W.np
    m = MESHES[mesh]
    o = W.arr("o", 3, -50, 50)
    P = np.array([[o[k] + float(r[k]) for k in range(3)] for r in m.ref])
    D, box = W.choice("ray", LINES if rays is None else [LINES[i] for i in rays])
    a = [W.real(f"a{k}", *b) if b[0] < b[1] else b[0] for k, b in enumerate(box)]
    ts = [0.0, *W.choice("cuts", list(cuts)), 1.0]
    order = []
    for f, cells in expected(m, m.ref, drop=False):
        F = [[float(x) for x in m.ref[j]] for j in f]
        hit, X, _ = crossing(W, a, D, F)
        if not (W.val(hit) if W_bool(hit) else hit):
            continue
        t = W_time(a, D, F)
        W.assume(W.and_(*[W.abs(t - u) >= GAP for u in ts]))
        W.assume(W.and_(*[W.abs(t - u) >= GAP for u, _ in order]))
        p = 0
        while p < len(order) and W_less(W, order[p][0], t):
            p += 1
        order.insert(p, (t, cells))
    want, t0, c0 = [], 0.0, -1
    for t, cells in order:
        want.append((t0, t, c0))
        c0 = next((c for c in cells if c != c0), -1) if c0 == -1 or len(cells) == 2 else -1
        t0 = t
    want.append((t0, 1.0, c0))
    # one visit of the mesh
    W.assume(all(c != -1 for _, _, c in want[1:-1]))
    cut(W, m.build(W, P), P, o, a, D, ts, want, segments, flags)


def W_time(a, D, F):
    n = normal(F)
    return dot(n, sub(a, F[0])) * (-1.0 / sum(x * y for x, y in zip(n, D)))


def cut(W, mesh, G, o, a, D, ts, want, segments, flags):
    """The line a, a + D with nodes at ts is cut by the mesh at (from, to, cell)."""
    np, pv, pvg = W.np, W.pv, W.pvg
    before, after = (W.flag("before"), W.flag("after")) if flags else (False, False)
    inside = [i for i, p in enumerate(want) if p[2] != -1]
    full = []
    for i, (t0, t1, c) in enumerate(want):
        if c == -1 and inside and ((before and i < inside[0]) or (after and i > inside[-1])):
            continue
        mid = [u for u in ts[1:-1] if c == -1 and not W_less(W, u, t0) and not W_less(W, t1, u)]
        q = [t0, *mid, t1]
        full += [(u, v, c) for u, v in zip(q[:-1], q[1:])]
    P = np.array([[o[k] + a[k] + t * D[k] for k in range(3)] for t in ts])
    val = W.arr("val", len(ts) - 1 if segments else 1, -5, 5)
    if segments:
        line = pv.PolyData(P, lines=np.array([v for i in range(len(ts) - 1) for v in (2, i, i + 1)]))
    else:
        line = pv.PolyData(P, lines=np.array([len(ts), *range(len(ts))]))
    line.cell_data["val"] = val
    keep = W.choice("pass", [True, False]) if flags else True
    r = pvg.intersect_polyline(mesh, line, pass_cell_data=keep, ignore_points_before_entry=before, ignore_points_after_exit=after)
    W.check("cut at the facets", r.n_cells == len(full) and r.n_points == len(full) + 1)
    W.eq("crossings", r.points, np.array([[o[k] + a[k] + t * D[k] for k in range(3)] for t in [full[0][0]] + [p[1] for p in full]]), tol=1e-4)
    ids = [int(v) for v in r.cell_data["IntersectedCellIds"]]
    W.check("cell of each piece", ids == [int(p[2]) for p in full])
    lid = [int(v) for v in r.cell_data["vtkOriginalCellIds"]]
    for i, (t0, t1, c) in zip(lid, full):
        W.check("segment of each piece", 0 <= i < len(ts) - 1 and W.and_(ts[i] < t1, ts[i + 1] > t0))
    L = float(rnp.linalg.norm(D))
    W.eq("length of each piece", r.cell_data["Length"], np.array([(t1 - t0) * L for t0, t1, _ in full]), tol=1e-4)
    W.check("data on request", ("val" in r.cell_data) == bool(keep))
    if keep:
        W.eq("data of the line", r.cell_data["val"], np.array([val[i if segments else 0] for i in lid]))
    W.eq("mesh kept", mesh.points, G)
    W.eq("line kept", line.points, P)


# from out of the meshes, along the line
LINES = [
    ((5.0, 0.5, 0.75), ((-2, -1), (-0.25, 0.75), (0.25, 0.875))),
    ((-4.0, 1.5, 0.5), ((2.5, 3), (-0.5, 0.5), (0, 0.75))),
    ((0.25, 0.5, 4.0), ((0, 1.75), (-0.25, 1), (-1.5, -0.5))),
    ((1.0, 1.0, -2.5), ((-0.5, 1), (-0.5, 0.5), (2.125, 2.5))),
]


def instances(tier):
    out = []
    kinds = ["mixed-2d", "pixels-2d", "hexas", "tetras", "wedges", "polyhedra"]
    if tier != "quick":
        kinds += ["voxels", "pyramids", "mixed-3d", "empty-3d", "apart-3d", "apart-2d", "empty-2d"]
    for k in kinds:
        out.append(Instance("ray-" + k, ray, f"{len(MESHES[k].cells)} cells", mesh=k, replays=8))
    for k in ("hexas", "pixels-2d"):
        out.append(Instance(f"ray-{k}-hidden", ray, f"{len(MESHES[k].cells)} cells, one hidden", mesh=k, rays=(0,), hide=True, replays=8))
    for k in ("faces", "lines"):
        out.append(Instance("own-" + k, own, f"{k} of a surface mesh", kind=k, replays=8))
    out.append(Instance("own-both", refused, "surface of faces and lines"))
    L = {
        # name: grid, direction and where the line starts, other options
        "row": dict(n=(3, 2, 1), ray=((7.0, 0.75, 0.25), ((-1, 0.5), (0.25, 0.75), (0.25, 0.5)))),
        "back": dict(n=(3, 1, 1), ray=((-8.0, 0.5, 0.25), ((2, 7), (0.125, 0.25), (0.125, 0.375))), cuts=((), (0.25, 0.5))),
        "segments": dict(n=(2, 2, 1), ray=((6.0, 1.0, 0.0), ((-1, 0.5), (0.25, 0.75), (0.25, 0.5))), cuts=((0.5,), (0.25, 0.75)), segments=True),
        "ends": dict(n=(2, 1, 1), ray=((7.0, 0.25, 0.0), ((-2, -1), (0.25, 0.375), (0.25, 0.5))), cuts=((0.0625, 0.875), (0.0625,)), flags=True, kind="unstructured"),
        "stub": dict(n=(2, 1, 2), ray=((1.0, 0.0, 0.5), ((-1.5, 4), (0.25, 0.5), (0.25, 0.75))), cuts=((), (0.5,)), kind="unstructured"),
        "up": dict(n=(1, 1, 3), ray=((0.25, 0.125, 5.0), ((0.125, 0.375), (0.125, 0.5), (-1, 0.5))), cuts=((), (0.5,))),
    }
    if tier != "quick":
        L |= {
            "row-wide": dict(n=(4, 2, 2), ray=((8.0, 0.75, 0.5), ((-1, 0.5), (0.25, 0.75), (0.25, 0.75))), cuts=((), (0.5,), (0.25, 0.5, 0.75))),
            "diagonal": dict(n=(2, 2, 2), ray=((4.0, 3.0, 3.5), ((-1, -0.5), (-1, -0.5), (-1, -0.5))), cuts=((), (0.5,))),
            "down": dict(n=(2, 2, 2), ray=((1.0, -1.5, -5.0), ((0.25, 0.75), (1.5, 2), (2, 4))), cuts=((), (0.5,)), segments=True),
            "inside": dict(n=(3, 1, 1), ray=((2.0, 0.25, 0.0), ((0.25, 3), (0.25, 0.375), (0.25, 0.5))), cuts=((), (0.5,), (0.25, 0.75)), kind="unstructured"),
            "flags": dict(n=(2, 2, 1), ray=((7.0, 1.0, 0.0), ((-2, -1), (0.25, 0.75), (0.25, 0.5))), cuts=((0.125, 0.875), (0.0625, 0.5)), flags=True, segments=True),
        }
    for k, kw in L.items():
        out.append(Instance("line-" + k, polyline, "x".join(map(str, kw["n"])) + " boxes", replays=6, **kw))
    if tier == "quick":
        T = [("hexas", 2, dict(cuts=((0.5,),))), ("wedges", 0, dict(cuts=((0.5,),))), ("tetras", 0, dict(cuts=((),))), ("polyhedra", 3, dict(cuts=((0.5,),)))]
    else:
        T = []
        for k in ["hexas", "wedges", "tetras", "polyhedra", "pyramids", "mixed-3d"]:
            for i in range(len(LINES)):
                T.append((k, i, dict(cuts=((), (0.5,), (0.25, 0.75)))))
                T.append((k, i, dict(cuts=((0.125, 0.375), (0.5,)), segments=True, flags=True)))
    for j, (k, i, kw) in enumerate(T):
        out.append(Instance(f"cells-{k}-{j}", through, f"{len(MESHES[k].cells)} cells", mesh=k, rays=[i], replays=6, **kw))
    return out
