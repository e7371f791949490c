"""Extrusion of a surface along vectors, with scaling and rotation."""
from .lib import *

BOUNDS = "surfaces of 1 to 4 cells (structured normal to any axis, image, rectilinear, unstructured triangle and quad), 1-2 extrusion steps with 1-2 subdivisions; symbolic position, sides, vector length, and one of scale or angle symbolic (the others fixed), given at construction, per step or both; negative scales and fixed angles up to 210 degrees"
ASSUMPTIONS = ["sides and scale are not both symbolic, vectors have fixed directions", "cosine and sine of a symbolic angle are any pair on the unit circle"]

VEC = [(0.0, 0.0, 1.0), (1.0, 0.0, 0.0), (0.0, -1.0, 0.0), (0.36, 0.48, 0.8), (0.6, 0.0, -0.8)]


def surface(W, kind, axis, sides):
    """Base mesh, its nodes and its cells (nodes in VTK order)."""
    np, pv = W.np, W.pv
    u, v = [a for a in range(3) if a != axis]
    o = [W.real(f"o{a}", -20, 20) for a in range(3)]
    a, b = [W.real("a", 1 / 2, 4), W.real("b", 1 / 2, 4)] if sides == "symbolic" else [2.0, 1.0]

    def node(i, j):
        p = list(o)
        p[u] = p[u] + i * a
        p[v] = p[v] + j * b
        return p

    if kind == "unstructured":
        P = [node(*t) for t in ((0.0, 0.0), (1.0, 0.0), (1.0, 1.0), (0.0, 1.0), (1.5, 0.25))]
        return pv.UnstructuredGrid(np.array([4, 0, 1, 2, 3, 3, 1, 4, 2]), np.array([9, 5]), np.array(P)), P, [[0, 1, 2, 3], [1, 4, 2]]
    nu, nv = 2, 1 if kind == "structured" else 2
    P = [node(float(i), float(j) if kind != "structured" else 1.5 * j) for j in range(nv + 1) for i in range(nu + 1)]
    dims = [1, 1, 1]
    dims[u], dims[v] = nu + 1, nv + 1
    cells = [[c + r * (nu + 1) for c, r in ((i, j), (i + 1, j), (i + 1, j + 1), (i, j + 1))] for j in range(nv) for i in range(nu)]
    if kind == "rectilinear":
        axes = [[o[k]] for k in range(3)]
        axes[u], axes[v] = [o[u] + i * a for i in range(nu + 1)], [o[v] + j * b for j in range(nv + 1)]
        return pv.RectilinearGrid(*map(np.array, axes)), P, cells
    return structured(W, np.array(P), tuple(dims)), P, cells


def moved(W, P, d, h, scale, angle):
    """The oracle: translate, scale about the middle of the bounding box, rotate about it."""
    V = [h * x for x in d]
    P = [[x + y for x, y in zip(p, V)] for p in P]
    mid = lambda P: [(W.min(*[p[k] for p in P]) + W.max(*[p[k] for p in P])) * 0.5 for k in range(3)]
    if scale is not None:
        c = mid(P)
        P = [[(x - m) * scale + m for x, m in zip(p, c)] for p in P]
    if angle is not None:
        c = mid(P)
        if W.sym:
            t = W.np.deg2rad(angle)
            cs, sn = W.np.cos(t), W.np.sin(t)
        else:
            t = angle * math.pi / 180.0
            cs, sn = math.cos(t), math.sin(t)
        out = []
        for p in P:
            q = [x - m for x, m in zip(p, c)]
            k = cross(d, q)
            dd = dot(d, q)
            out.append([m + x * cs + y * sn + z * dd * (1.0 - cs) for m, x, y, z in zip(c, q, k, d)])
        P = out
    return P


def run(W, kind="structured", axis=2, sides="fixed", scale=None, angle=None, steps=1, vec=None):
    np, pvg = W.np, W.pvg
    base, P, cells = surface(W, kind, axis, sides)
    S = {"symbolic": lambda t: W.real("s" + t, 1 / 4, 3), "fixed": lambda t: W.choice("s" + t, [0.5, 2.0] if kind == "unstructured" or t == "0" else [-0.5, 2.0, 0.0]), None: lambda t: None}[scale]
    A = {"symbolic": lambda t: W.real("t" + t, -170, 170), "fixed": lambda t: W.choice("t" + t, [90.0, -30.0, 210.0, 0.0]), None: lambda t: None}[angle]
    where = W.choice("where", ["both", "default", "step"] if (scale or angle) else ["none"])
    dkw, skw = {}, {}
    if scale:
        (skw if where == "step" else dkw)["scale"] = S("0")
    if angle:
        (skw if where == "step" else dkw)["angle"] = A("0")
    if where == "both":
        skw = dict(scale=S("1") if scale else None, angle=A("1") if angle else None)
    e = pvg.MeshExtrude(base, **dkw)
    levels, res, V = [P], [], []
    for i in range(steps):
        d = vec if vec is not None else W.choice(f"d{i}", VEC)
        # never within the surface
        h = W.real(f"h{i}", 1, 9)
        r = W.choice(f"r{i}", [None, 2])
        v = [h * x for x in d]
        kw = skw if i == 0 else {}
        if i % 2:
            v = np.array(v)
        e.add(v, r, **kw)
        V.append((d, h))
        s, t = (dict(dkw, **{k: x for k, x in kw.items() if x is not None}).get(k) for k in ("scale", "angle"))
        levels.append(moved(W, levels[-1], d, h, s, t))
        res.append(r or 1)
    m = e.generate_mesh()
    sub_levels = [levels[0]]
    for k, n in enumerate(res):
        for j in range(1, n + 1):
            sub_levels.append([lerp(p, q, j / n) for p, q in zip(levels[k], levels[k + 1])])
    if kind == "unstructured":
        ids = [(int(W.val(a)), int(W.val(b))) for a, b in zip(m.cell_data["LayerId"], m.cell_data["ColumnId"])]
        W.check("one cell per layer and column", sorted(ids) == [(a, b) for a in range(len(sub_levels) - 1) for b in range(len(cells))])
        conn, off = [int(x) for x in m.cell_connectivity], [int(x) for x in m.offset]
        for c, (layer, col) in enumerate(ids):
            got = [list(m.points[j]) for j in conn[off[c] : off[c + 1]]]
            want = [sub_levels[layer][j] for j in cells[col]] + [sub_levels[layer + 1][j] for j in cells[col]]
            W.check("cell nodes", len(got) == len(want))
            W.eq("cells between the levels", np.array(got), np.array(want))
    else:
        n = len(sub_levels)
        dims = tuple(m.dimensions)
        want = tuple(n if k == axis else x for k, x in enumerate({"structured": (3, 2), "rectilinear": (3, 3)}[kind][:axis] + (0,) + {"structured": (3, 2), "rectilinear": (3, 3)}[kind][axis:]))
        W.check("dimensions", dims == want)
        nu = 3
        order = [None] * m.n_points
        for k in range(n):
            for q, p in enumerate(sub_levels[k]):
                t = [q % nu, q // nu]
                t.insert(axis, k)
                order[sidx(want, *t)] = p
        W.eq("nodes", m.points, np.array(order))
    W.eq("base kept", base.points if kind != "rectilinear" else base.cast_to_structured_grid().points, np.array(P))


def refused(W):
    np, pv, pvg = W.np, W.pv, W.pvg
    case = W.choice("case", ["3d", "1d", "vector", "row", "column", "scalar", "none"])
    base, P, _ = surface(W, "structured", 2, "fixed")
    if case == "3d":
        x = [[[W.real("x", -9, 9) + i for k in range(2)] for j in range(2)] for i in range(2)]
        y, z = ([[[float((i, j, k)[a]) for k in range(2)] for j in range(2)] for i in range(2)] for a in (1, 2))
        f = lambda: pvg.MeshExtrude(pv.StructuredGrid(np.array(x), np.array(y), np.array(z)))
    elif case == "1d":
        f = lambda: pvg.MeshExtrude(structured(W, np.array(P[:3]), (3, 1, 1)))
    elif case == "vector":
        v = [W.real("h", -9, 9)] * W.choice("n", [1, 2, 4])
        f = lambda: pvg.MeshExtrude(base).add(v)
    elif case in ("row", "column"):
        h = W.real("h", 1, 9)
        v = [[0.0, 0.0, h]] if case == "row" else [[0.0], [0.0], [h]]
        f = lambda: pvg.MeshExtrude(base).add(v)
    elif case == "scalar":
        f = lambda: pvg.MeshExtrude(base).add(W.real("h", -9, 9))
    else:
        f = lambda: pvg.MeshExtrude(base).generate_mesh()
    W.check("refused", W.raises(ValueError, f))


def instances(tier):
    q = tier == "quick"
    n = 2 if q else 3
    z, ob = VEC[0], VEC[3]
    out = [Instance("refused", refused, "invalid surfaces and vectors")]
    for axis in range(3):
        d = {0: VEC[1], 1: VEC[2], 2: z}[axis]
        out.append(Instance(f"plain-{axis}", run, f"normal {axis}", axis=axis, sides="symbolic", steps=1, vec=d, replays=10))
        out.append(Instance(f"scale-{axis}", run, f"normal {axis}, fixed scale", axis=axis, sides="symbolic", scale="fixed", vec=d, replays=10))
        out.append(Instance(f"scale-symbolic-{axis}", run, f"normal {axis}, symbolic scale", axis=axis, scale="symbolic", vec=ob, replays=10))
        out.append(Instance(f"angle-{axis}", run, f"normal {axis}, fixed angle", axis=axis, sides="symbolic", angle="fixed", vec=d, replays=10))
        out.append(Instance(f"angle-symbolic-{axis}", run, f"normal {axis}, symbolic angle", axis=axis, angle="symbolic", vec=d, replays=10))
    out.append(Instance("oblique", run, "any vector", sides="fixed" if q else "symbolic", angle="fixed", replays=10))
    out.append(Instance("scale-angle", run, "scale and angle", scale="fixed", angle="fixed", vec=z, replays=10))
    out.append(Instance("steps", run, f"{n} steps", scale="fixed", angle="fixed", steps=n, vec=z, replays=10))
    out.append(Instance("rectilinear", run, "rectilinear base", kind="rectilinear", scale="fixed", vec=z, replays=10))
    for k, kw in {"plain": dict(sides="symbolic"), "scale": dict(scale="symbolic"), "angle": dict(angle="fixed", sides="symbolic"), "both": dict(scale="fixed", angle="fixed"), "steps": dict(steps=2, scale="fixed")}.items():
        out.append(Instance(f"unstructured-{k}", run, "unstructured base", kind="unstructured", vec=z, replays=10, **kw))
    return out
