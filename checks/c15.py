"""Reconstruction of a line from scattered points."""
from .lib import *

BOUNDS = "fixed arrangements of 4-6 points in a coordinate plane in sampled orders, scaled and moved by symbolic amounts; 4 points (5 thorough) one of which moves along a line; 3-5 points on an axis-parallel line with symbolic positions (multiples of 1/8, coincident points allowed), 2D or 3D, any starting point, open or closed; arrays, point clouds and unstructured grids; arrangements as small as 2^-9"
ASSUMPTIONS = ["with symbolic positions, points lie on one axis-parallel line, or one of them moves along a line, so that lengths stay tractable", "positions are multiples of 1/8: improvements below the relative tolerance of the search may be ignored by it"]


def length(W, xs, order, close):
    order = list(order) + ([order[0]] if close else [])
    return sum(W.abs(xs[a] - xs[b]) for a, b in zip(order[:-1], order[1:]))


def sequence(W, r, close):
    """The nodes in the order of the line."""
    conn = [int(v) for v in r.lines]
    segs, k = [], 0
    while k < len(conn):
        ids = conn[k + 1 : k + 1 + conn[k]]
        segs += list(zip(ids[:-1], ids[1:]))
        k += conn[k] + 1
    seq = [segs[0][0]] + [b for _, b in segs]
    W.check("one connected line", all(a[1] == b[0] for a, b in zip(segs[:-1], segs[1:])))
    if close:
        W.check("closed", seq[0] == seq[-1])
        seq = seq[:-1]
    else:
        W.check("open", seq[0] != seq[-1] or len(seq) == 1)
    return seq


def line(W, n=4, axis=0, kind="array", close=None, starts=None, perms=None):
    np, pv, pvg = W.np, W.pv, W.pvg
    # the points from left to right are perm[0], perm[1], ...
    perm = W.choice("perm", perms or list(itertools.permutations(range(n))))
    x, xs = W.int("x", -64, 64) * 0.125, [None] * n
    for i, lab in enumerate(perm):
        x = x + (W.int(f"g{i}", 0, 64) * 0.125 if i else 0.0)
        xs[lab] = x
    close = W.flag("close") if close is None else close
    start = W.choice("start", starts or list(range(n)))
    dim = 2 if kind == "array2" else 3
    P = np.array([[xs[i] if a == axis else [7.0, 5.0, 3.0][a] for a in range(dim)] for i in range(n)])
    src = P
    if kind == "cloud":
        src = pv.PolyData(P)
    elif kind == "grid":
        src = pv.UnstructuredGrid(np.array([n, *range(n)]), np.array([4]), P)
    r = pvg.reconstruct_line(src, start=start, close=close)
    W.eq("input kept", P if kind.startswith("array") else src.points, P.copy())
    seq = sequence(W, r, close)
    W.check("all the points", len(seq) == n == r.n_points and sorted(seq) == list(range(n)))
    R = [list(r.points[i]) for i in seq]
    y = [p[axis] for p in R]
    for p in R:
        W.check("other coordinates", W.and_(*[W.abs(p[a] - ([7.0, 5.0, 3.0][a] if a < dim else 0.0)) <= 1e-9 for a in range(3) if a != axis]))
    W.eq("starting point", np.array(R[0][: dim]), P[start])
    # the same points, each as often as given
    for v in xs:
        cnt = lambda zs: sum(W.ite(v == z, 1, 0) for z in zs)
        W.check("every point once", cnt(y) == cnt(xs))
    L = length(W, y, range(n), close)
    W.le("not longer than the given order", L, length(W, xs, [(start + i) % n for i in range(n)], close), tol=1e-4)
    for i in range(1, n - 1):
        for j in range(i + 2, n + 1):
            o = list(range(i)) + list(range(i, j))[::-1] + list(range(j, n))
            W.le("cannot be shortened by reversing a part", L, length(W, y, o, close), tol=1e-4)


def planar(W, fixed=((0.0, 0.0), (0.0, 2.0), (1.0, 0.0), (1.0, 2.0)), y=3.0, at=4, axes=(0, 1), close=True, starts=(0,), dim=3):
    """Points in a coordinate plane, one of which moves along a line: crossings are removed, ends included."""
    np, pv, pvg = W.np, W.pv, W.pvg
    x = W.real("x", -2, 4)
    n = len(fixed) + 1
    pts = list(fixed)
    pts.insert(at, (x, y))
    P = [[1.5] * dim for _ in pts]
    for p, q in zip(P, pts):
        p[axes[0]], p[axes[1]] = q
    start = W.choice("start", list(starts))
    A = np.array(P)
    r = pvg.reconstruct_line(A, start=start, close=close)
    seq = sequence(W, r, close)
    W.check("all the points", sorted(seq) == list(range(n)) and r.n_points == n)
    # which point each one is: the moving point is the only one at its ordinate
    order = []
    for i in seq:
        q = r.points[i]
        if abs(float(W.val(q[axes[1]])) - y) < 1e-9:
            W.eq("moving point", q[axes[0]], x)
            order.append(at)
        else:
            j = [j for j, f in enumerate(pts) if j != at and abs(float(W.val(q[axes[0]])) - f[0]) + abs(float(W.val(q[axes[1]])) - f[1]) < 1e-9]
            order.append(j[0] if j else -1)
    W.check("the given points", sorted(order) == list(range(n)))
    W.check("starting point", order[0] == start)
    if sorted(order) != list(range(n)):
        return
    d = {}
    for a in range(n):
        for b in range(a):
            d[a, b] = d[b, a] = np.linalg.norm(A[a] - A[b])
    length = lambda o: sum(d[a, b] for a, b in zip(o, o[1:] + ([o[0]] if close else [])) if a != b)
    L = length(order)
    W.le("not longer than the given order", L, length([(start + i) % n for i in range(n)]), tol=1e-4)
    for i in range(1, n - 1):
        for j in range(i + 2, n + 1):
            W.le("cannot be shortened by reversing a part", L, length(order[:i] + order[i:j][::-1] + order[j:]), tol=1e-4)


SETS = {
    "pentagon": [(0.0, 0.0), (2.0, 0.25), (2.5, 2.0), (1.0, 3.0), (-0.5, 1.5)],
    "house": [(0.0, 0.0), (0.0, 2.0), (1.0, 0.0), (1.0, 2.0), (0.5, 3.0)],
    "zigzag": [(0.0, 0.0), (1.0, 2.0), (2.0, 0.0), (3.0, 2.0), (4.0, 0.0), (1.0, 0.5)],
    "grid": [(0.0, 0.0), (1.0, 0.0), (2.0, 0.0), (0.0, 1.0), (1.0, 1.0), (2.0, 1.0)],
    "kite": [(0.0, 0.0), (2.0, 2.0), (1.0, 1.0), (1.0, 0.0)],
}


def shape(W, name="house", axes=(0, 1), dim=3, count=6):
    """Points in a plane in various orders, moved and scaled by unknown amounts: no reversal shortens the result."""
    np, pv, pvg = W.np, W.pv, W.pvg
    Q = SETS[name]
    n = len(Q)
    allp = list(itertools.permutations(range(n)))
    step = max(1, len(allp) // count)
    perm = W.choice("perm", allp[step // 2 :: step])
    close = W.flag("close")
    start = W.choice("start", [0, 1, n - 1])
    s, u, v = W.real("scale", 2.0**-9, 4.0), W.real("u", -5, 5), W.real("v", -5, 5)
    P = [[1.5] * dim for _ in Q]
    for p, i in zip(P, perm):
        p[axes[0]], p[axes[1]] = s * Q[i][0] + u, s * Q[i][1] + v
    A = np.array(P)
    r = pvg.reconstruct_line(A if dim == 2 or W.flag("array") else pv.PolyData(A), start=start, close=close)
    seq = sequence(W, r, close)
    W.check("all the points", sorted(seq) == list(range(n)) and r.n_points == n)
    order = []
    for i in seq:
        q = r.points[i]
        j = [j for j in range(n) if W.known(W.and_(*[W.abs(q[axes[k]] - P[j][axes[k]]) < 1e-4 for k in (0, 1)]))]
        order.append(j[0] if j else -1)
    W.check("the given points", sorted(order) == list(range(n)))
    W.check("starting point", order[0] == start)
    if sorted(order) != list(range(n)):
        return
    q = [Q[i] for i in perm]
    length = lambda o: sum(math.dist(q[a], q[b]) for a, b in zip(o, o[1:] + ([o[0]] if close else [])))
    L = length(order)
    W.check("not longer than the given order", L <= length([(start + i) % n for i in range(n)]) + 1e-6)
    for i in range(1, n - 1):
        for j in range(i + 2, n + 1):
            W.check("cannot be shortened by reversing a part", L <= length(order[:i] + order[i:j][::-1] + order[j:]) + 1e-6)


def refused(W):
    np, pvg = W.np, W.pvg
    k = W.choice("k", [1, 4])
    W.check("refused", W.raises(ValueError, lambda: pvg.reconstruct_line(W.arr("p", (3, k), 0, 1))))


def instances(tier):
    q = tier == "quick"
    out = [
        Instance("three", line, "3 points", n=3),
        Instance("three-2d", line, "3 points in 2D", n=3, axis=1, kind="array2"),
        Instance("three-cloud", line, "3 points", n=3, axis=2, kind="cloud"),
        Instance("three-grid", line, "3 points", n=3, kind="grid", close=False),
        Instance("four", line, "4 points", n=4, close=False, starts=[0], max_paths=20000),
        Instance("four-closed", line, "4 points", n=4, close=True, starts=[2], max_paths=20000),
        Instance("planar-four", planar, "4 points in a plane, one moving", fixed=((0.0, 0.0), (1.0, 1.0), (1.0, 0.0)), y=2.0, at=1, starts=(1,)),
        *[Instance(f"shape-{k}", shape, f"{len(v)} points in a plane", name=k, axes=((0, 1), (1, 2), (2, 0))[i % 3], dim=2 if i % 3 == 0 and i else 3, count=6 if q else 60) for i, (k, v) in enumerate(SETS.items())],
        Instance("refused", refused, "1 or 4 columns"),
    ]
    if not q:
        out += [Instance(f"four-{s}-{'closed' if c else 'open'}", line, "4 points", n=4, close=c, starts=[s], max_paths=40000) for s in (1, 3) for c in (False, True)]
        out += [
            Instance("planar-closed", planar, "5 points in a plane, one moving"),
            Instance("planar-closed-yz", planar, "5 points in a plane, one moving", axes=(1, 2), at=2, starts=(3,)),
            Instance("planar-open", planar, "5 points in a plane, one moving", close=False, at=1, dim=2),
            Instance("planar-start", planar, "4 points in a plane, one moving", fixed=((0.0, 0.0), (1.0, 1.0), (1.0, 0.0)), y=2.0, at=1, starts=(0, 2, 3)),
        ]
        out += [Instance("five", line, "5 points", n=5, close=False, starts=[0], max_paths=200000)]
    return out
