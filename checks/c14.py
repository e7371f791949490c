"""Averaging of close points."""
from symx.stubs import pair_order

from .lib import *

BOUNDS = "point clouds of 3-5 points on a line (symbolic positions, several labellings, symbolic tolerance) and surfaces of 2-4 faces whose nodes lie in two or three rows with symbolic positions; four orders in which the neighbour search returns its pairs; all orders for chains of 4-6 points; no gap within 1/64 of the tolerance"

KEYS = {
    "forward": lambda p: p,
    "backward": lambda p: (-p[0], -p[1]),
    "odd-first": lambda p: (-(p[0] % 2), p[1]),
    "far-first": lambda p: (p[0] - p[1], p),
}


def layout(W, rows, tol):
    """Rows of node labels from left to right; -> coordinates per node and joined neighbours."""
    n = sum(map(len, rows))
    xs, joined = [None] * n, []
    for q, row in enumerate(rows):
        x = W.real(f"x{q}", -4, 4)
        for i, lab in enumerate(row):
            if i:
                g = W.real(f"g{q}_{i}", 1 / 16, 4)
                x = x + g
                joined.append((row[i - 1], lab, g))
            xs[lab] = [x, 10.0 * q, 2.0]
        # no pair at the limit
        for i in range(len(row)):
            for j in range(i + 1, len(row)):
                d = xs[row[j]][0] - xs[row[i]][0]
                W.assume(W.or_(d <= tol - 1 / 64, d >= tol + 1 / 64))
    return xs, joined


def classes(W, n, joined, tol):
    root = list(range(n))
    for a, b, g in joined:
        if bool(g <= tol):
            ra, rb = root[a], root[b]
            root = [ra if r == rb else r for r in root]
    return root


def mean(xs, root, r):
    m = [x for x, k in zip(xs, root) if k == r]
    return [sum(c) * (1.0 / len(m)) for c in zip(*m)]


def cloud(W, rows=((0, 1, 2),), symtol=False, zero=False):
    np, pv, pvg = W.np, W.pv, W.pvg
    tol = 0.0 if zero else (W.real("tol", 1 / 4, 3) if symtol else 1.0)
    key = KEYS[W.choice("order", list(KEYS))]
    xs, joined = layout(W, rows, tol)
    n = len(xs)
    m = pv.PolyData(np.array(xs))
    with pair_order(key, W.sym):
        r = pvg.average_points(m, tolerance=tol)
    root = classes(W, n, joined, tol)
    W.eq("input kept", m.points, np.array(xs))
    W.check("one point per group of close points", r.n_points == len(set(root)))
    for k in sorted(set(root)):
        mk = mean(xs, root, k)
        W.check("each group at its mean position", W.or_(*[same_point(W, list(p), mk, 1e-4) for p in r.points]))


def chain(W, n=5, labels=None, head=None):
    """A chain of close points: every order in which its pairs may be found."""
    np, pv, pvg = W.np, W.pv, W.pvg
    lab = W.choice("labels", labels or [list(range(n)), list(range(n))[::-1], [(3 * i) % n for i in range(n)] if n % 3 else [i // 2 if i % 2 else n - 1 - i // 2 for i in range(n)]])
    rest = list(range(n - 1))
    order = []
    while rest:
        order.append(rest.pop(head[len(order)] if head and len(order) < len(head) else rest.index(W.choice(f"pair{len(order)}", rest))))
    x, xs, pairs = W.real("x", -4, 4), [None] * n, []
    for i, l in enumerate(lab):
        if i:
            x = x + W.real(f"g{i}", 5 / 8, 7 / 8)
            pairs.append((min(lab[i - 1], l), max(lab[i - 1], l)))
        xs[l] = [3.0, x, 2.0]
    rank = {pairs[k]: r for r, k in enumerate(order)}
    with pair_order(lambda p: rank[tuple(int(v) for v in p)], W.sym):
        r = pvg.average_points(pv.PolyData(np.array(xs)), tolerance=1.0)
    W.check("one point", r.n_points == 1)
    W.eq("mean position", r.points[0], np.array(mean(xs, [0] * n, 0)), tol=1e-5)


def surface(W, rows=((0, 1, 2, 3), (4, 5, 6, 7)), faces=((0, 1, 5, 4), (1, 2, 6, 5), (2, 3, 7)), order=None):
    np, pv, pvg = W.np, W.pv, W.pvg
    tol = 1.0
    key = KEYS[order or W.choice("order", list(KEYS))]
    xs, joined = layout(W, rows, tol)
    m = pv.PolyData(np.array(xs), faces=[v for f in faces for v in (len(f), *f)])
    with pair_order(key, W.sym):
        r = pvg.average_points(m, tolerance=tol)
    root = classes(W, len(xs), joined, tol)
    W.eq("input kept", m.points, np.array(xs))
    want, ids, used = [], [], set()
    for i, f in enumerate(faces):
        c = []
        for v in f:
            if not c or c[-1] != root[v]:
                c.append(root[v])
        if len(c) > 1 and c[0] == c[-1]:
            c.pop()
        if len(c) > 2:
            want.append(c)
            ids.append(i)
            used |= set(c)
    W.check("collapsed faces are removed", r.n_cells == len(want))
    if not want:
        W.check("nothing left", r.n_points == 0)
        return
    W.check("original faces", [int(v) for v in r.cell_data["vtkOriginalCellIds"]] == ids)
    W.check("unused points are removed", r.n_points == len(used))
    for got, c in zip(r.irregular_faces, want):
        W.check("size", len(got) == len(c))
        W.eq("nodes at the mean position of their group", np.array([list(r.points[int(v)]) for v in got]), np.array([mean(xs, root, k) for k in c]), tol=1e-5)


def instances(tier):
    q = tier == "quick"
    out = [
        Instance("cloud-3", cloud, "3 points, symbolic tolerance", symtol=True),
        Instance("cloud-4", cloud, "4 points", rows=((0, 1, 2, 3),)),
        Instance("cloud-4-shuffled", cloud, "4 points", rows=((0, 2, 1, 3),)),
        Instance("cloud-rows", cloud, "two rows", rows=((0, 3), (2, 1, 4))),
        Instance("cloud-zero", cloud, "tolerance zero", rows=((2, 0, 1),), zero=True),
        Instance("chain-4", chain, "chains of 4 points, every order of pairs", n=4, replays=10),
        Instance("chain-5", chain, "chains of 5 points, every order of pairs", n=5, replays=10),
        Instance("chain-6", chain, "chains of 6 points, every order of pairs that starts with the ends", n=6, labels=[[0, 1, 2, 3, 4, 5]], head=(0, 3), replays=10),
        Instance("surface-2", surface, "2 faces", rows=((0, 1, 2), (3, 4, 5)), faces=((0, 1, 4, 3), (1, 2, 5, 4)), replays=10),
        Instance("surface-fan", surface, "4 faces", rows=((4, 0), (1, 2, 3)), faces=((0, 1, 4), (2, 0, 1), (3, 0, 2), (1, 2, 3, 0)), replays=10),
        Instance("surface-pinch", surface, "polygon pinched between its nodes", rows=((1, 4), (0, 3), (2, 5)), faces=((0, 1, 2, 3, 4, 5), (1, 2, 4)), replays=10),
        Instance("surface-poly", surface, "polygon and triangle", rows=((0, 4, 1), (3, 2, 5)), faces=((0, 4, 1, 5, 2, 3), (1, 5, 2)), replays=10),
    ]
    if not q:
        out += [
            Instance("chain-6-all", chain, "chains of 6 points, every order of pairs", n=6, max_paths=2000),
            Instance("cloud-5", cloud, "5 points", rows=((0, 1, 2, 3, 4),), max_paths=20000),
            Instance("cloud-5-shuffled", cloud, "5 points", rows=((3, 0, 2, 4, 1),), max_paths=20000),
            Instance("cloud-4-symtol", cloud, "4 points, symbolic tolerance", rows=((3, 0, 2, 1),), symtol=True, max_paths=20000),
        ] + [Instance(f"surface-3-{o}", surface, "3 faces", order=o, replays=10, max_paths=20000) for o in KEYS]
    return out
