"""Offsetting polygons."""
from .lib import *

BOUNDS = "polygons of 3-8 nodes in any coordinate plane with symbolic position, size and distance (outwards, inwards, zero), either winding, any first node; right-angled shapes with symbolic sides and others with a symbolic scale; one or two polygons per mesh; tiny polygons and slight bends"
ASSUMPTIONS = ["oblique polygons have fixed angles (rational directions) and a symbolic scale, right-angled ones have symbolic sides: lengths then stay linear"]

# nodes as (x, y) in terms of side lengths; counter-clockwise
SHAPES = {
    "rectangle": (2, lambda a: [(0, 0), (a[0], 0), (a[0], a[1]), (0, a[1])]),
    "ell": (4, lambda a: [(0, 0), (a[0] + a[1], 0), (a[0] + a[1], a[2]), (a[0], a[2]), (a[0], a[2] + a[3]), (0, a[2] + a[3])]),
    "tee": (4, lambda a: [(0, 0), (a[0] + a[1] + a[0], 0), (a[0] + a[1] + a[0], a[2]), (a[0] + a[1], a[2]), (a[0] + a[1], a[2] + a[3]), (a[0], a[2] + a[3]), (a[0], a[2]), (0, a[2])]),
    "aligned": (3, lambda a: [(0, 0), (a[0], 0), (a[0] + a[1], 0), (a[0] + a[1], a[2]), (0, a[2])]),
    "triangle": (1, lambda a: [(0, 0), (4.0 * a[0], 0), (0, 3.0 * a[0])]),
    "kite": (1, lambda a: [(0, 0), (4.0 * a[0], -3.0 * a[0]), (16.0 * a[0], 2.0 * a[0]), (4.0 * a[0], 7.0 * a[0])]),
    "arrow": (1, lambda a: [(0, 0), (3.0 * a[0], -4.0 * a[0]), (15.0 * a[0], 1.0 * a[0]), (3.0 * a[0], 6.0 * a[0]), (-2.0 * a[0], 6.0 * a[0])]),
    "dart": (1, lambda a: [(0, 0), (24.0 * a[0], 7.0 * a[0]), (0, 14.0 * a[0]), (5.0 * a[0], 7.0 * a[0])]),
}


def polygon(W, shape, axis, tag="", unit=1.0):
    k, f = SHAPES[shape]
    a = [unit * W.real(f"a{tag}{i}", 1 / 2, 4) for i in range(k)]
    o = [W.real(f"o{tag}{i}", -9, 9) for i in range(3)]
    idx = [i for i in range(3) if i != axis]
    P = []
    for x, y in f(a):
        p = [o[0], o[1], o[2]]
        p[idx[0]], p[idx[1]] = p[idx[0]] + x, p[idx[1]] + y
        P.append(p)
    return P, idx


def verify(W, P, R, idx, axis, d, ccw, unit=1.0):
    """Every side of R is the side of P moved outwards by d."""
    n = len(P)
    sgn = 1.0 if ccw else -1.0
    for i in range(n):
        A, B = P[i], P[(i + 1) % n]
        u = [B[idx[0]] - A[idx[0]], B[idx[1]] - A[idx[1]]]
        for Q in (R[i], R[(i + 1) % n]):
            v = [Q[idx[0]] - A[idx[0]], Q[idx[1]] - A[idx[1]]]
            c = (u[1] * v[0] - u[0] * v[1]) * sgn  # outwards component times the length
            # c == d * |u|  without the root
            W.check("moved outwards by the distance", W.and_(W.abs(c * c - d * d * (u[0] * u[0] + u[1] * u[1])) <= 1e-3 * unit**4, W.implies(d > 1e-2 * unit, c >= -1e-3 * unit**2), W.implies(d < -1e-2 * unit, c <= 1e-3 * unit**2)))
        # corresponding nodes: the nodes stay in front of each other
    for p, q in zip(P, R):
        W.check("in the plane of the polygon", W.abs(p[axis] - q[axis]) <= 1e-6)


def offset(W, shape="rectangle", axes=(2,), kind="points", small=False, unit=1.0):
    np, pv, pvg = W.np, W.pv, W.pvg
    axis = W.choice("axis", list(axes))
    P, idx = polygon(W, shape, axis, unit=unit)
    n = len(P)
    rev = W.flag("reversed")
    s = W.choice("first", list(range(n)))
    order = [(s + i) % n for i in range(n)]
    order = order[::-1] if rev else order
    d = W.real("d", -1 / 8, 1 / 8) if small else W.real("d", -2, 2)
    W.assume(W.or_(d == 0.0, W.abs(d) >= 1 / 64))
    d = d * unit
    Q = [P[i] for i in order]
    arg = np.array(Q)
    if kind == "mesh":
        arg = pv.PolyData(arg, faces=[n, *range(n)])
    r = pvg.offset_polygon(arg, d)
    W.check("one polygon", r.n_faces_strict == 1 and r.n_points == n)
    face = [int(v) for v in r.irregular_faces[0]]
    W.check("same nodes in the same order", len(face) == n)
    R = [list(r.points[j]) for j in face]
    if bool(d == 0.0):
        W.eq("kept as it is", np.array(R), np.array(Q))
    else:
        verify(W, Q, R, idx, axis, d, not rev, unit)
    W.check("another mesh", r is not arg)
    W.eq("input kept", arg.points if kind == "mesh" else arg, np.array(Q))


def two(W, shapes=("rectangle", "triangle")):
    np, pv, pvg = W.np, W.pv, W.pvg
    axis = W.choice("axis", [0, 2])
    polys, pts, faces = [], [], []
    for k, sh in enumerate(shapes):
        P, idx = polygon(W, sh, axis, f"_{k}_")
        rev = W.flag(f"reversed{k}")
        P = P[::-1] if rev else P
        faces += [len(P), *range(len(pts), len(pts) + len(P))]
        pts += P
        polys.append((P, not rev))
    d = W.real("d", -1, 1)
    W.assume(W.abs(d) >= 1 / 64)
    r = pvg.offset_polygon(pv.PolyData(np.array(pts), faces=faces), d)
    W.check("two polygons", r.n_faces_strict == 2)
    for face, (P, ccw) in zip(r.irregular_faces, polys):
        W.check("same nodes in the same order", len(face) == len(P))
        verify(W, P, [list(r.points[int(j)]) for j in face], idx, axis, d, ccw)


def refused(W):
    np, pv, pvg = W.np, W.pv, W.pvg
    case = W.choice("case", ["lines", "tilted", "segment"])
    d = W.real("d", 1 / 8, 1)
    h = W.real("h", 1 / 2, 3)
    if case == "lines":
        m = pv.PolyData(np.array([[0.0, 0.0, 0.0], [1.0, 0.0, 0.0], [1.0, h, 0.0]]), lines=[3, 0, 1, 2])
    elif case == "tilted":
        m = np.array([[0.0, 0.0, 0.0], [1.0, 0.0, 0.0], [1.0, 1.0, h]])
    else:
        m = np.array([[0.0, 0.0, 0.0], [1.0, 0.0, 0.0], [1.0 + h, 0.0, 0.0]])
    W.check("refused", W.raises(ValueError, lambda: pvg.offset_polygon(m, d)))


def instances(tier):
    q = tier == "quick"
    out = [Instance(f"{k}-{kind}", offset, k, shape=k, axes=(0, 1, 2), kind=kind, max_paths=400, replays=8) for k, kind in zip(SHAPES, ["points", "mesh"] * 4)]
    out += [Instance("two", two, "rectangle and triangle", replays=8), Instance("two-concave", two, "L shape and dart", shapes=("dart", "ell"), replays=8), Instance("tiny", offset, "rectangle, size 1e-6", shape="rectangle", axes=(0, 2), unit=2.0**-21, max_paths=400, replays=8), Instance("refused", refused, "lines, tilted or aligned points")]
    return out
