"""Elevations of stack items: scalars, functions, data sets and planes."""
from .lib import *

BOUNDS = "2D stacks of 2-3 nodes and 3D stacks over up to 6 nodes (structured along any axis, and unstructured), up to 4 items, symbolic coordinates in [-20, 20]; line data of 2-4 points in any order, with a cliff of two points at one place (given in the order of the line); surface data of 6 scattered points with symbolic elevations; items with data of their own; places offset by up to 1e6"


def base2d(W, axis, n=3):
    """A line along the first free axis of the plane of the stack."""
    np = W.np
    x = W.arr("x", n, -10, 10)
    for i in range(n - 1):
        W.assume(x[i + 1] - x[i] > 0.125)
    P = [[0.0, 0.0, 0.0] for _ in range(n)]
    for i in range(n):
        P[i][(axis + 1) % 3] = x[i]
    return x, P


GRID = [(float(i), float(j)) for j in range(2) for i in range(3)]


def base3d(W, kind, axis):
    """A 3x2 node surface normal to `axis`; its own elevation is symbolic."""
    np, pv = W.np, W.pv
    u, v = [a for a in range(3) if a != axis]
    e = W.arr("base", 6, -3, 3)
    sx = W.real("stretch", 0.5, 2.0)
    P = [[0.0] * 3 for _ in range(6)]
    for i, (a, b) in enumerate(GRID):
        P[i][u], P[i][v], P[i][axis] = sx * a, b, e[i]
    A = np.array(P)
    if kind == "structured":
        d = [1, 1, 1]
        d[u], d[v] = 3, 2
        return structured(W, A, tuple(d)), P
    return pv.UnstructuredGrid(np.array([4, 0, 1, 4, 3, 3, 1, 2, 4, 3, 2, 5, 4]), np.array([9, 5, 5]), A), P


def put(P, axis, e):
    out = [list(p) for p in P]
    for p, v in zip(out, e):
        p[axis] = v
    return out


def scalars2d(W):
    np, pv, pvg = W.np, W.pv, W.pvg
    axis = W.choice("axis", [0, 1, 2])
    up = W.flag("bottom_up")
    x, P = base2d(W, axis)
    base = list(x) if W.flag("array") else pv.MultipleLines(np.array(P))
    s = pvg.MeshStack2D(base, axis, up)
    z0, d1, d2 = W.real("z0", -9, 9), W.real("d1", -5, 5), W.real("d2", -5, 5)
    W.assume(W.and_(W.abs(d1) > 0.125, W.abs(d2) > 0.125))
    s.add(z0).add(d1).add(d2)
    sg = 1.0 if up else -1.0
    lv = [z0, z0 + sg * W.abs(d1), z0 + sg * W.abs(d1) + sg * W.abs(d2)]
    for it, z in zip(s.items, lv):
        W.eq("item", it.mesh.points, np.array(put(P, axis, [z] * 3)))
    m = s.generate_mesh()
    W.check("dimensions", sorted(m.dimensions) == [1, 3, 3])
    got = m.points
    want = []
    dims = {0: (3, 3, 1), 1: (3, 3, 1), 2: (3, 1, 3)}[axis]
    W.check("shape", tuple(m.dimensions) == dims)
    for k in range(3):
        for j in range(3):
            # axis 0: elevation is the first grid axis (plane yx); otherwise the second
            line, lev = (k, j) if axis == 0 else (j, k)
            want.append(put([P[line]], axis, [lv[lev]])[0])
    W.eq("grid", got, np.array(want))


def scalars3d(W, kind="structured", axes=(0, 1, 2)):
    np, pvg = W.np, W.pvg
    axis = W.choice("axis", list(axes))
    up = W.flag("bottom_up")
    b, P = base3d(W, kind, axis)
    z0, d1 = W.real("z0", -9, 9), W.real("d1", -5, 5)
    W.assume(W.abs(d1) > 0.125)
    s = pvg.MeshStack3D(b, axis, up).add(z0).add(d1)
    sg = 1.0 if up else -1.0
    lv = [z0, z0 + sg * W.abs(d1)]
    for it, z in zip(s.items, lv):
        W.eq("item", it.mesh.points, np.array(put(P, axis, [z] * 6)))
    W.eq("base mesh is kept", b.points, np.array(P))


def functions(W, kind="structured", axes=(0, 1, 2)):
    """A function of the coordinates, then a relative thickness on top of it."""
    np, pvg = W.np, W.pvg
    axis = W.choice("axis", list(axes))
    up = W.flag("bottom_up")
    a, c, d = W.real("a", -2, 2), W.real("c", -9, 9), W.real("d", 0.25, 4)
    sg = 1.0 if up else -1.0
    if kind == "line":
        x, P = base2d(W, axis)
        s = pvg.MeshStack2D(list(x), axis, up)
    else:
        b, P = base3d(W, kind, axis)
        s = pvg.MeshStack3D(b, axis, up)
    w = (1.0, 3.0, 0.5)
    f = lambda x, y, z: a * (w[0] * x + w[1] * y + w[2] * z) + c
    s.add(f).add(d).add(lambda x, y, z: f(x, y, z) + 2.0 * sg * d)
    e = [a * (w[0] * p[0] + w[1] * p[1] + w[2] * p[2]) + c for p in P]
    for k, it in enumerate(s.items):
        W.eq("item", it.mesh.points, np.array(put(P, axis, [v + k * sg * d for v in e])))


def line_data(W, axis=2, orders=([0, 1, 2], [2, 1, 0], [1, 0, 2], [0, 2, 1]), cliff=False):
    """Piecewise linear interpolation of a line given in any order; a cliff: two points at one place."""
    np, pv, pvg = W.np, W.pv, W.pvg
    x, P = base2d(W, axis, 2)
    n = len(orders[0])
    xp, zp = W.arr("xp", n, -20, 20), W.arr("zp", n, -9, 9)
    if cliff:
        xp[2] = xp[1]
        W.assume(W.and_(*[W.abs(v - xp[1]) > 0.125 for v in x]))
    for i in range(n - 1):
        if not (cliff and i == 1):
            W.assume(xp[i + 1] - xp[i] > 0.25)
    order = W.choice("order", list(orders))
    D = [[0.0] * 3 for _ in range(n)]
    for i in range(n):
        D[i][(axis + 1) % 3], D[i][axis] = xp[i], zp[i]
    D = np.array([D[i] for i in order])
    extra = W.choice("extrapolation", [None, "nearest"])
    s = pvg.MeshStack2D(list(x), axis)
    inside = W.known(W.and_(*[W.and_(v >= xp[0], v <= xp[n - 1]) for v in x]))
    arg = pv.lines_from_points(D) if W.flag("dataset") else D
    if not inside and not extra:
        W.check("data not enclosing the mesh are refused", W.raises(ValueError, s.add, arg))
        return
    s.add(arg, extrapolation=extra)
    got = s.items[0].mesh.points
    W.eq("other coordinates", np.delete(got, axis, axis=1), np.delete(np.array(P), axis, axis=1))
    for i in range(2):
        # the value multiplied by the width of the segment it falls in
        v, g = x[i], got[i][axis]
        W.check("left of the data", W.implies(v <= xp[0], W.abs(g - zp[0]) < 1e-5))
        W.check("right of the data", W.implies(v >= xp[n - 1], W.abs(g - zp[n - 1]) < 1e-5))
        for k in range(n - 1):
            r = (g - zp[k]) * (xp[k + 1] - xp[k]) - (v - xp[k]) * (zp[k + 1] - zp[k])
            W.check("between two points", W.implies(W.and_(v >= xp[k], v <= xp[k + 1]), W.abs(r) < 1e-4))


DATA = [(-1.0, -1.0), (5.0, -1.0), (5.0, 3.0), (-1.0, 3.0), (1.0, 1.0), (1.5, 0.25)]


def surface_data(W, axis=2, kind="structured"):
    np, pv, pvg = W.np, W.pv, W.pvg
    u, v = [a for a in range(3) if a != axis]
    e = W.arr("base", 6, -3, 3)
    pos = [(0.0, 0.0), (1.0, 0.0), (2.5, 0.0), (0.0, 1.0), (1.0, 1.0), (2.5, 1.0)]
    # as with map coordinates, the extent may be small compared to the position
    *far, size = W.choice("far", [(0.0, 0.0, 1.0), (4096.0, -65536.0, 1.0), (0.0, 0.0, 2.0**-13)])
    P = [[0.0] * 3 for _ in range(6)]
    for i, (p, q) in enumerate(pos):
        P[i][u], P[i][v], P[i][axis] = p * size + far[0], q * size + far[1], e[i]
    A = np.array(P)
    if kind == "structured":
        d = [1, 1, 1]
        d[u], d[v] = 3, 2
        b = structured(W, A, tuple(d))
    else:
        b = pv.UnstructuredGrid(np.array([4, 0, 1, 4, 3, 3, 1, 2, 4, 3, 2, 5, 4]), np.array([9, 5, 5]), A)
    case = W.choice("case", ["plane", "node", "outside", "nearest", "partly", "bad", "one out", "one nearest"])
    z = W.arr("z", 6, -9, 9)
    if case in ("plane", "partly"):
        a, c, k = W.real("a", -3, 3), W.real("b", -3, 3), W.real("c", -9, 9)
        z = [a * p + c * q + k for p, q in DATA]
    data = DATA if case in ("plane", "node") else [(p * 0.3 + 0.4, q * 0.3) for p, q in DATA]
    if case == "partly":
        z = [a * p + c * q + k for p, q in data]
    if case.startswith("one"):
        # the last node alone lies outside
        data = [(-1.0, -1.0), (4.0, -1.0), (-1.0, 3.0), (1.0, 1.0), (0.0, 0.5), (2.0, -0.5)]
    D = [[0.0] * 3 for _ in range(6)]
    for i, (p, q) in enumerate(data):
        D[i][u], D[i][v], D[i][axis] = p * size + far[0], q * size + far[1], z[i]
    D = np.array(D)
    s = pvg.MeshStack3D(b, axis)
    arg = D if W.flag("points") else pv.UnstructuredGrid(np.array([3, 0, 1, 2, 3, 0, 2, 3]), np.array([5, 5]), D)
    if case in ("outside", "one out"):
        W.check("data not enclosing the mesh are refused", W.raises(ValueError, s.add, arg))
        return
    if case == "bad":
        W.check("unknown extrapolation is refused", W.raises(ValueError, s.add, arg, extrapolation="linear"))
        return
    s.add(arg, extrapolation="nearest" if case in ("nearest", "partly", "one nearest") else None)
    got = s.items[0].mesh.points
    W.eq("other coordinates", got[:, [u, v]], A[:, [u, v]])
    if case == "plane":
        W.eq("a plane is reproduced", got[:, axis], np.array([a * p + c * q + k for p, q in pos]), tol=1e-5)
    elif case == "partly":
        # node 1 lies inside the hull of the data, away from its points
        W.eq("linear within the data", got[1][axis], a * pos[1][0] + c * pos[1][1] + k, tol=1e-5)
        d2 = [(p - 2.5) ** 2 + (q - 1.0) ** 2 for p, q in data]
        W.eq("nearest elevation outside the data", got[5][axis], z[d2.index(min(d2))], tol=1e-5)
    elif case == "node":
        W.eq("a node on a data point takes its elevation", got[4][axis], z[4], tol=1e-5)
        lo, hi = W.min(*z), W.max(*z)
        for i in range(6):
            W.check("interpolated within the data", W.and_(got[i][axis] >= lo - 1e-4, got[i][axis] <= hi + 1e-4))
    else:
        if case == "one nearest":
            W.eq("a node on a data point takes its elevation", got[4][axis], z[3], tol=1e-5)
        # node 5 lies outside the hull of the data: nearest data point
        d2 = [(p - 2.5) ** 2 + (q - 1.0) ** 2 for p, q in data]
        W.eq("nearest elevation outside the data", got[5][axis], z[d2.index(min(d2))])


def profile_data(W, axis=2, along=0, kind="structured"):
    """Data given along a line only: elevations do not change in the other direction."""
    np, pv, pvg = W.np, W.pv, W.pvg
    b, P = base3d(W, kind, axis)
    u = [a for a in range(3) if a != axis][along]
    xp, z = [-40.0, 0.75, 40.0], W.arr("z", 3, -9, 9)
    D = np.zeros((3, 3))
    D[:, 3 - axis - u] = W.choice("at", [0.0, 3.0])
    for i in range(3):
        D[i, u], D[i, axis] = xp[i], z[i]
    if W.flag("reversed"):
        D = D[::-1].copy()
    s = pvg.MeshStack3D(b, axis)
    s.add(pv.lines_from_points(D) if W.flag("dataset") else D)
    got = s.items[0].mesh.points
    for i, p in enumerate(P):
        for k in range(2):
            r = (got[i][axis] - z[k]) * (xp[k + 1] - xp[k]) - (p[u] - xp[k]) * (z[k + 1] - z[k])
            W.check("between two points", W.implies(W.and_(p[u] >= xp[k], p[u] <= xp[k + 1]), W.abs(r) < 1e-4))
    W.eq("other coordinates", np.delete(got, axis, axis=1), np.delete(np.array(P), axis, axis=1))


def plane(W, axis=2):
    """A plane through a point, level along the rotation axis, tilted by the sine of the angle."""
    np, pvg = W.np, W.pvg
    b, P = base3d(W, W.choice("kind", ["structured", "unstructured"]), axis)
    u, v = [a for a in range(3) if a != axis]
    about = W.choice("about", [u, v])
    ang = W.real("angle", -80, 80)
    pt = W.arr("point", 3, -5, 5)
    A = [0.0, 0.0, 0.0]
    A[about] = ang
    A[axis] = W.choice("spin", [0.0, 30.0])  # a rotation about the stacking axis changes nothing
    kept = list(A)
    A = np.array(A) if W.flag("array") else A
    s = pvg.MeshStack3D(b, axis).add_plane(A, list(pt))
    W.eq("angles given kept", np.array(list(A)), np.array(kept))
    got = s.items[0].mesh.points
    sn = np.sin(np.deg2rad(ang))
    # left-handed tilt: rotating the offsets back by the given angle
    sg = {(0, 1): -1.0, (1, 2): -1.0, (2, 0): -1.0, (1, 0): 1.0, (2, 1): 1.0, (0, 2): 1.0}
    other = u if about == v else v
    want = [pt[axis] + sg[(about, other)] * sn * (p[other] - pt[other]) for p in P]
    W.eq("elevations", got[:, axis], np.array(want), tol=1e-5)
    W.eq("other coordinates", got[:, [u, v]], np.array(P)[:, [u, v]])


def refused(W):
    np, pv, pvg = W.np, W.pv, W.pvg
    z = W.real("z", -5, 5)
    case = W.choice("case", ["1d", "2d", "axis", "grid", "one item", "line", "dim"])
    b, _ = base3d(W, "structured", 2)
    ok = {
        "1d": lambda: pvg.MeshStack3D(b).add([z, z]),
        "2d": lambda: pvg.MeshStack3D(b).add([[z, z], [z, z]]),
        "axis": lambda: pvg.MeshStack3D(b, 3),
        "grid": lambda: pvg.MeshStack3D(b, 0),
        "one item": lambda: pvg.MeshStack3D(b).add(z).generate_mesh(),
        "line": lambda: pvg.MeshStack2D(b),
        "dim": lambda: pvg.MeshStack3D(pv.PolyData(np.array([[0.0, 0.0, z], [1.0, 0.0, z], [0.0, 1.0, z]]), faces=[3, 0, 1, 2])),
    }[case]
    W.check(f"refused: {case}", W.raises(ValueError, ok))


def instances(tier):
    q = tier == "quick"
    out = [
        Instance("scalars-2d", scalars2d, "3 items over 3 nodes"),
        Instance("scalars-structured", scalars3d, "3x2 nodes", kind="structured"),
        Instance("scalars-unstructured", scalars3d, "3 cells", kind="unstructured"),
        Instance("functions-line", functions, "3 nodes", kind="line"),
        Instance("functions-structured", functions, "3x2 nodes", kind="structured"),
        Instance("functions-unstructured", functions, "3 cells", kind="unstructured"),
    ]
    for a in (0, 1, 2):
        out.append(Instance(f"line-data-axis{a}", line_data, "2 nodes, 3 data points", axis=a, replays=16))
        out.append(Instance(f"line-data-two-axis{a}", line_data, "2 nodes, 2 data points", axis=a, orders=([0, 1], [1, 0]), replays=8))
        out.append(Instance(f"surface-data-axis{a}", surface_data, "6 nodes, 6 data points", axis=a, kind="structured" if a else "unstructured"))
        out.append(Instance(f"plane-axis{a}", plane, "6 nodes", axis=a))
    for a, k, kind in ((2, 0, "structured"), (2, 1, "unstructured"), (0, 0, "structured"), (1, 1, "unstructured")):
        out.append(Instance(f"profile-axis{a}-{k}", profile_data, "6 nodes, 3 data points along a line", axis=a, along=k, kind=kind, replays=10))
    out.append(Instance("line-data-cliff", line_data, "2 nodes, 4 data points, two at one place", axis=2 if q else 1, orders=([0, 1, 2, 3], [3, 0, 1, 2]), cliff=True, replays=8))
    out.append(Instance("refused", refused, "invalid arguments"))
    return out
