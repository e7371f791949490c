"""Ramer-Douglas-Peucker decimation of lines."""
from .lib import *

BOUNDS = "one to three lines/polylines of 2-5 nodes with concrete abscissas and symbolic ordinates in any coordinate plane, symbolic tolerance; closed polylines; no node within 1/64 of the limit of the tolerance at the first split; right-angled corners, nodes just over and under the tolerance"
ASSUMPTIONS = ["nodes of a polyline lie in a coordinate plane and their abscissas are fixed, so that distances are polynomial in the ordinates and the tolerance"]


def nodes(W, tag, shape, axes):
    """shape: abscissas and fixed ordinates (None: symbolic)."""
    out = []
    for i, (x, y) in enumerate(shape):
        p = [3.0, 3.0, 3.0]
        p[axes[0]] = x
        p[axes[1]] = W.real(f"{tag}y{i}", -4, 4) if y is None else y
        out.append(p)
    return out


def off2(W, a, b, p):
    """Squared distance of p to the segment a-b, times the squared length of a-b."""
    u = sub(b, a)
    v, w = sub(p, a), sub(p, b)
    c = cross(u, v)
    return W.ite(dot(u, v) <= 0, dot(v, v) * dot(u, u), W.ite(dot(u, w) >= 0, dot(w, w) * dot(u, u), dot(c, c)))


def polylines(r):
    conn, k, out = [int(v) for v in r.lines], 0, []
    while k < len(conn):
        out.append(conn[k + 1 : k + 1 + conn[k]])
        k += conn[k] + 1
    return out


def run(W, shape, axes=(0, 1), tol=None, closed=False, extra=False, deep=True):
    np, pv, pvg = W.np, W.pv, W.pvg
    P = nodes(W, "", shape, axes)
    n = len(P)
    tol = W.real("tol", 1 / 16, 2) if tol is None else tol
    cells = [list(range(n)) + ([0] if closed else [])]
    pts = list(P)
    if extra:
        # a segment is kept as it is, another line is decimated on its own
        pts += [[20.0, 1.0, 1.0], [21.0, 5.0, 1.0], [22.0, 5.0, 1.0], [23.0, 5.0, 1.0]]
        cells = [[n, n + 1]] + cells + [[n + 1, n + 2, n + 3]]
    m = pv.PolyData(np.array(pts), lines=[v for c in cells for v in (len(c), *c)])
    r = pvg.decimate_rdp(m, tolerance=tol)
    W.eq("input kept", m.points, np.array(pts))
    got = polylines(r)
    W.check("one line per line", len(got) == len(cells))
    if extra:
        W.eq("segment kept", np.array([list(r.points[i]) for i in got[0]]), np.array(pts[n : n + 2]))
        W.eq("straight line decimated", np.array([list(r.points[i]) for i in got[2]]), np.array([pts[n + 1], pts[n + 3]]))
    line = [list(r.points[i]) for i in got[1 if extra else 0]]
    src = [P[i % n] for i in range(n + 1)] if closed else P
    # abscissas are all different (but the closing node): they tell which node it is
    ids = []
    for q, p in enumerate(line):
        j = [i for i in range(len(src)) if abs(float(W.val(p[axes[0]])) - src[i][axes[0]]) < 1e-9]
        W.check("nodes of the input only", len(j) > 0)
        if not j:
            return
        ids.append(j[-1] if q else j[0])
    W.check("in order, with both ends", ids[0] == 0 and ids[-1] == len(src) - 1 and all(a < b for a, b in zip(ids[:-1], ids[1:])))
    W.eq("position", np.array(line), np.array([src[i] for i in ids]))
    # everything that was dropped lies close to what replaces it
    for a, b in zip(ids[:-1], ids[1:]):
        A, B = src[a], src[b]
        u = sub(B, A)
        for j in range(a + 1, b):
            if closed and a == 0 and b == len(src) - 1:
                d = sub(src[j], A)
                W.check("dropped nodes are within the tolerance", dot(d, d) <= tol * tol + 1e-4)
            else:
                W.check("dropped nodes are within the tolerance", off2(W, A, B, src[j]) <= (tol * tol + 1e-4) * dot(u, u))
    # nothing is kept but the farthest node of a stretch that needs splitting, again and again
    if not closed:
        W.check("only nodes that a split requires", required(W, src, ids, tol, deep))


def required(W, src, ids, tol, deep=True):
    if len(ids) <= 2:
        return True
    A, B = src[ids[0]], src[ids[-1]]
    u = dot(sub(B, A), sub(B, A))
    off = {j: off2(W, A, B, src[j]) for j in range(ids[0] + 1, ids[-1])}
    ways = []
    for q in range(1, len(ids) - 1):
        d = off[ids[q]]
        ways.append(W.and_(d > (tol * tol - 1e-4) * u, *[d >= o - 1e-4 for j, o in off.items() if j != ids[q]], *([required(W, src, ids[: q + 1], tol), required(W, src, ids[q:], tol)] if deep else [])))
    return W.or_(*ways)


def corner(W, at=1, n=5, axes=(0, 1)):
    """Two straight runs: the corner is kept or not, the other nodes never are."""
    np, pv, pvg = W.np, W.pv, W.pvg
    h = W.real("h", -4, 4)
    tol = 0.5
    P = []
    for i in range(n):
        p = [3.0, 3.0, 3.0]
        p[axes[0]] = float(i)
        p[axes[1]] = h * (float(i) / at if i <= at else float(n - 1 - i) / (n - 1 - at))
        P.append(p)
    r = pvg.decimate_rdp(pv.PolyData(np.array(P), lines=[n, *range(n)]), tolerance=tol)
    got = polylines(r)
    # distance of the corner to the chord, which is the axis
    W.assume(W.or_(abs(h) <= tol - 1e-3, abs(h) >= tol + 1e-3))
    keep = [0, at, n - 1] if bool(abs(h) > tol) else [0, n - 1]
    W.check("one line", len(got) == 1)
    W.check("only the corner is kept", len(got[0]) == len(keep))
    if len(got[0]) == len(keep):
        W.eq("nodes", np.array([list(r.points[i]) for i in got[0]]), np.array([P[i] for i in keep]))


LINE4 = ((0.0, 0.0), (1.0, None), (3.0, None), (4.0, 0.0))
TILTED = ((0.0, 0.0), (1.0, None), (2.0, None), (3.0, 1.5))
TILT4 = ((0.0, 0.0), (1.0, None), (2.0, None), (3.0, None))
LINE5 = ((0.0, 1.0), (1.0, None), (2.0, 1.0), (3.0, None), (4.0, 1.0))
OVER = ((0.0, 0.0), (3.0, None), (1.0, None), (2.0, 0.0))
UNDER = ((0.0, 0.0), (-2.0, None), (1.0, 0.0), (2.0, None), (1.5, 0.0))
BACK = ((0.0, 0.0), (4.0, None), (2.0, 0.0))
LOOP = ((0.0, 0.0), (1.0, None), (2.0, None))
FREE5 = ((0.0, 0.0), (1.0, None), (2.0, None), (3.0, None), (4.0, 0.0))


def instances(tier):
    q = tier == "quick"
    out = [
        Instance("four", run, "4 nodes", shape=LINE4),
        Instance("four-xz", run, "4 nodes", shape=LINE4, axes=(2, 0), tol=0.5),
        Instance("tilted", run, "4 nodes, tilted chord", shape=TILTED, axes=(1, 2), tol=0.25),
        Instance("five", run, "5 nodes", shape=LINE5, tol=0.5, axes=(1, 0)),
        Instance("corner-1", corner, "two straight runs", at=1),
        Instance("corner-2", corner, "two straight runs", at=2, axes=(1, 2)),
        Instance("corner-3", corner, "two straight runs", at=3, axes=(2, 0)),
        Instance("back", run, "3 nodes turning back", shape=BACK),
        Instance("over", run, "4 nodes, one beyond the end", shape=OVER, tol=0.5, axes=(2, 1)),
        Instance("under", run, "5 nodes, one before the start", shape=UNDER, tol=0.75, axes=(0, 2)),
        Instance("loop", run, "closed polyline", shape=LOOP, closed=True, tol=1.5),
        Instance("loop-yz", run, "closed polyline", shape=LOOP, closed=True, tol=1.5, axes=(1, 2)),
        Instance("loop-zx", run, "closed polyline", shape=LOOP, closed=True, tol=1.75, axes=(2, 0)),
        Instance("several", run, "3 lines", shape=LINE4, extra=True, tol=0.5),
    ]
    if not q:
        out += [
            Instance("free-five", run, "5 nodes", shape=FREE5, tol=0.5),
            Instance("tilted-end", run, "4 nodes, free end", shape=TILT4, axes=(1, 2), tol=0.25, deep=False),
            Instance("tilted-tol", run, "4 nodes, free end, symbolic tolerance", shape=TILT4, deep=False),
            Instance("loop-tol", run, "closed polyline, symbolic tolerance", shape=LOOP, closed=True),
        ]
    return out
