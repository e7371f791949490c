"""Regular and curved lines."""
from .lib import *

BOUNDS = "polylines of 2-5 nodes whose segments have fixed directions (every axis, oblique) and symbolic lengths (possibly zero for one of them), symbolic first node, 1-6 subdivisions or the default; curved lines of 1-5 segments with fixed end directions (parallel, acute, right, obtuse, any length) or a symbolic one, symbolic length and origin"
ASSUMPTIONS = ["segments of polylines and end directions of curved lines have fixed directions (rational or concrete), so that lengths are linear", "end directions of curved lines are not opposite"]

DIRS = {
    "straight": [(1, 0, 0), (1, 0, 0)],
    "one": [(0, 0.6, 0.8)],
    "corner": [(1, 0, 0), (0, -1, 0)],
    "steps": [(0, 0, 1), (0.6, 0.8, 0), (0, 0, -1)],
    "back": [(1, 0, 0), (-1, 0, 0), (0, 0.8, 0.6)],
    "spiral": [(1, 0, 0), (0, 1, 0), (-0.6, 0, 0.8), (0, 0, -1)],
}


def along(W, P, S, L, s):
    """Position at abscissa s (exact, by cases)."""
    total = [0.0]
    for v in L:
        total.append(total[-1] + v)
    out = P[-1]
    for i in range(len(L) - 1, -1, -1):
        q = [P[i][a] + (s - total[i]) * S[i][a] for a in range(3)]
        out = [W.ite(s <= total[i + 1], x, y) for x, y in zip(q, out)]
    return out


def line_nodes(W, m):
    c = [int(v) for v in m.lines]
    W.check("a single line", m.n_lines == 1 and m.n_cells == 1 and c[0] == len(c) - 1)
    W.check("each node once", sorted(c[1:]) == list(range(m.n_points)))
    W.check("no data left", not list(m.point_data.keys()) and not list(m.cell_data.keys()))
    return [list(m.points[i]) for i in c[1:]]


def regular(W, dirs="corner", zero=None, nres=4, kind="list"):
    np, pvg = W.np, W.pvg
    S = DIRS[dirs]
    L = [W.real(f"l{i}", 0 if i == zero else 1 / 4, 8) for i in range(len(S))]
    P = [[W.real(f"p{a}", -20, 20) for a in range(3)]]
    for s, l in zip(S, L):
        P.append([x + l * d for x, d in zip(P[-1], s)])
    res = W.choice("res", [None] + list(range(1, nres + 1)))
    arg = P if kind == "list" else np.array(P)
    m = pvg.RegularLine(arg, res)
    n = res if res else len(P)
    got = line_nodes(W, m)
    W.check("number of segments", len(got) == n + 1)
    total = sum(L[1:], L[0])
    W.eq("first node", np.array([got[0]]), np.array([P[0]]))
    W.eq("last node", np.array([got[-1]]), np.array([P[-1]]))
    for k in range(1, n):
        W.eq("nodes regularly spaced along the polyline", np.array([got[k]]), np.array([along(W, P, S, L, total * (k / n))]))
    W.eq("input kept", np.array(arg), np.array(P))


ENDS = [([1.0, 0.0, 0.0], [1.0, 0.004, 0.0]), 
    ((0.0, 0.0, -1.0), (0.5, 0.5, 0.0)),
    ((3.0, 0.0, 0.0), (0.0, 2.0, 0.0)),
    ((1.0, 2.0, 2.0), (0.5, 1.0, 1.0)),
    ((1.0, 0.0, 0.0), (-1.0, 0.1, 0.0)),
    ((0.0, 1.0, 0.25), (0.0, 1.0, 0.0)),
    ((0.0, 0.0, -2.0), None),
]


def unit(v):
    n = math.sqrt(sum(x * x for x in v))
    return [x / n for x in v]


def curved(W, nmax=5, container="list"):
    np, pvg = W.np, W.pvg
    a, b = ENDS[W.choice("dirs", list(range(len(ENDS))))]
    n = W.choice("n", list(range(1, nmax + 1)))
    L = W.real("length", 1 / 8, 50)
    o = [W.real(f"o{i}", -20, 20) for i in range(3)]
    wrapd = {"list": list, "array": np.array}[container]
    A, B, O = wrapd(a), wrapd(b) if b is not None else None, wrapd(o)
    m = pvg.CurvedLine(O, L, A, B, n) if b is not None else pvg.CurvedLine(O, L, A, resolution=n)
    got = line_nodes(W, m)
    W.check("number of segments", len(got) == n + 1)
    W.eq("starts at the origin", np.array([got[0]]), np.array([o]))
    # the direction turns at a constant rate from the first to the last one
    u, v = unit(a), unit(b or a)
    c = max(-1.0, min(1.0, sum(x * y for x, y in zip(u, v))))
    th = math.acos(c)
    w = unit([y - c * x for x, y in zip(u, v)]) if th > 1e-6 else [0.0, 0.0, 0.0]
    for k in range(n):
        f = (k + 0.5) / n * th
        d = [math.cos(f) * x + math.sin(f) * y for x, y in zip(u, w)]
        W.eq("segments of equal length turning at a constant rate", np.array([[q - p for p, q in zip(got[k], got[k + 1])]]), np.array([[L / n * x for x in d]]))
    W.eq("origin kept", np.array(O), np.array(o))
    W.eq("start kept", np.array(A), np.array(a))
    if b is not None:
        W.eq("end kept", np.array(B), np.array(b))


def straight(W, nmax=3):
    """A symbolic direction along an axis or a diagonal: a straight line."""
    np, pvg = W.np, W.pvg
    ax = W.choice("axis", [0, 1, 2])
    s = W.real("s", 1 / 8, 8)
    sign = W.choice("sign", [1.0, -1.0])
    d = [0.0, 0.0, 0.0]
    d[ax] = s * sign
    n = W.choice("n", list(range(1, nmax + 1)))
    L = W.real("length", 1 / 8, 50)
    o = [W.real(f"o{i}", -20, 20) for i in range(3)]
    same = W.choice("end", ["none", "same", "longer"])
    end = {"none": None, "same": list(d), "longer": [2.0 * x for x in d]}[same]
    got = line_nodes(W, pvg.CurvedLine(o, L, d, end, n))
    e = [0.0, 0.0, 0.0]
    e[ax] = sign
    W.eq("straight line of the requested length", np.array(got), np.array([[o[i] + L * k / n * e[i] for i in range(3)] for k in range(n + 1)]))


def instances(tier):
    q = tier == "quick"
    out = [Instance(f"regular-{k}", regular, k, dirs=k, nres=4 if q else 7, kind="array" if k in ("one", "steps") else "list", replays=10) for k in DIRS]
    out += [Instance(f"regular-zero-{k}-{z}", regular, f"{k}, segment {z} possibly of zero length", dirs=k, zero=z, nres=3 if q else 6, replays=10) for k, z in (("corner", 0), ("corner", 1), ("steps", 1), ("straight", 1))]
    out += [Instance(f"curved-{c}", curved, "fixed directions", container=c, nmax=5 if q else 12, replays=10) for c in ("list", "array")]
    out.append(Instance("curved-straight", straight, "symbolic direction along an axis", nmax=3 if q else 6, replays=10))
    return out
