"""Voronoi meshes: which generators are kept, their groups and the orientation of the cells."""
from symx.stubs import voronoi_rings

from .lib import *

BOUNDS = "background of 3x2 cells (structured or unstructured, cells or points as generators) normal to any axis, 1-3 items: one or two points, a rectangle, a triangle or a row of three cells with groups of their own, at any position in the plane, with any priority in -2..2, any group; cells of 3-6 nodes anywhere in [-1e5, 1e5]^2 with either winding; collapsed cells; rows of cells partly outside"
ASSUMPTIONS = [
    "the tessellation (qhull) and the clipping (GEOS) are abstract in the encoding: the tessellation gives one ring per generator and rings lie within the boundary; replays run the real ones",
    "generators lie at least 1/4 apart and 1/16 away from the edges of the background and of the cells of items",
]
M = 1 / 16


def place(W, p, axis, h):
    q = list(p)
    q.insert(axis, h)
    return q


def background(W, kind, axis, at=(0.0, 0.0), h=0.0, step=2.0):
    np, pv = W.np, W.pv
    P = [place(W, (at[0] + step * i, at[1] + step * j), axis, h) for j in range(3) for i in range(4)]
    if kind == "structured":
        d = [4, 3]
        d.insert(axis, 1)
        return structured(W, np.array(P), tuple(d))
    cells = [4 * j + i for j in range(2) for i in range(3)]
    return pv.UnstructuredGrid(np.array([v for c in cells for v in (4, c, c + 1, c + 5, c + 4)]), np.array([9] * 6), np.array(P))


def inside(p, poly):
    """Strictly within a convex polygon given counter-clockwise."""
    return [(b[0] - a[0]) * (p[1] - a[1]) - (b[1] - a[1]) * (p[0] - a[0]) for a, b in zip(poly, poly[1:] + poly[:1])]


BOX = [(0.0, 0.0), (6.0, 0.0), (6.0, 4.0), (0.0, 4.0)]


def decided(W, p, poly):
    """Whether p lies in poly, away from its edges."""
    k = inside(p, poly)
    return W.and_(*[x > 0.0 for x in k])


def away(W, p, poly):
    k = inside(p, poly)
    return W.or_(W.and_(*[x >= M for x in k]), *[x <= -M for x in k])


def selection(W, items=("points", "quad"), axis=2, kind="structured", pref="cell", again=False, named=False, free=2):
    np, pv, pvg = W.np, W.pv, W.pvg
    h = W.real("h", -5, 5)
    bg = background(W, kind, axis, h=h)
    if named:
        gid = [W.choice(f"bg{i}", [0, 1]) for i in range(2)] + [0, 1, 0, 0]
        bg.cell_data["CellGroup"] = np.array(gid)
        bg.user_dict["CellGroup"] = {"N": 0, "M": 1}
        ignore = ["M"] if W.flag("ignore") else None
    else:
        ignore = None
    default = W.choice("default", [None, "D"]) if len(items) == 1 and pref == "cell" else "D"
    v = pvg.VoronoiMesh2D(bg, axis, pref, **({"default_group": default} if default else {}), **({"ignore_groups": ignore} if ignore else {}))
    dname = default or "default"
    gens = []
    nb = range(6) if pref == "cell" else range(12)
    for i in nb:
        g = (("N", "M")[gid[i]] if not (ignore and gid[i] == 1) else dname) if named else dname
        gens.append(dict(p=(2.0 * (i % 3) + 1.0, 2.0 * (i // 3) + 1.0) if pref == "cell" else (2.0 * (i % 4), 2.0 * (i // 4)), prio=-1, group=g, dead=False))
    prep = []
    for k, it in enumerate(items):
        pr = W.int(f"prio{k}", -1 if k == 0 else -2, 2 if k else 1)
        gr = W.choice(f"group{k}", [None, "A"] if pref == "cell" else ["A"]) if k == 0 else "AB"[k - 1]
        if it.startswith("points"):
            n = 2 if it == "points2" else 1
            P = [(W.real(f"x{k}{i}", -1 if free == 2 else 1, 7 if free == 2 else 4), W.real(f"y{k}{i}", -1, 5) if free == 2 else 1.5) for i in range(n)]
            form = W.choice(f"form{k}", ["2d", "3d"]) if len(items) == 1 and not named else ("2d", "3d")[axis == 2]
            v.add([list(p) if form == "2d" else place(W, p, axis, 3.0) for p in P], priority=pr, group=gr)
            prep.append(dict(p=P, cells=None, prio=pr, group=gr))
        else:
            o = (W.real(f"x{k}", -2 if free == 2 else 0, 6 if free == 2 else 2), W.real(f"y{k}", -1, 4) if free == 2 else 0.5)
            shape = {"quad": [(0.0, 0.0), (3.0, 0.0), (3.0, 1.5), (0.0, 1.5)], "triangle": [(0.0, 0.0), (4.0, 0.0), (1.0, 2.5)]}[it]
            P = [(o[0] + a, o[1] + b) for a, b in shape]
            Q = [place(W, p, axis, 1.0) for p in P]
            if it == "quad":
                d = [2, 2]
                d.insert(axis, 1)
                m = structured(W, np.array([Q[i] for i in (0, 1, 3, 2)]), tuple(d))
            else:
                m = pv.UnstructuredGrid(np.array([3, 0, 1, 2]), np.array([5]), np.array(Q))
            v.add(m, priority=pr, group=gr)
            prep.append(dict(p=[(sum(p[0] for p in P) / len(P), sum(p[1] for p in P) / len(P))], cells=[P], prio=pr, group=gr))
    # away from all limits
    every = [g["p"] for g in gens] + [p for it in prep for p in it["p"]]
    for it in prep:
        for p in it["p"]:
            W.assume(away(W, p, BOX))
        for c in it["cells"] or []:
            for p in every:
                W.assume(away(W, p, c))
    for i, p in enumerate(every):
        for q in every[max(i + 1, len(gens)) :]:
            W.assume(W.or_(W.abs(p[0] - q[0]) >= 1 / 4, W.abs(p[1] - q[1]) >= 1 / 4))
    voronoi_rings(W, lambda pts: [[(0.1 + 0.3 * i, 0.1), (0.3 + 0.3 * i, 0.1), (0.3 + 0.3 * i, 0.4), (0.1 + 0.3 * i, 0.4)] for i in range(len(pts))])
    try:
        m = v.generate_mesh()
        if again:
            m = v.generate_mesh()
    except Exception as e:
        if type(e).__name__ == "QhullError":
            W.assume(False)
        raise
    # oracle: highest absolute priority last, the later of two equal ones last
    rank = sorted(range(len(prep)), key=lambda k: (abs(prep[k]["prio"]), k))
    for k in rank:
        it = prep[k]
        kept = [j for j, p in enumerate(it["p"]) if bool(decided(W, p, BOX))]
        if it["cells"] and kept:
            for g in gens:
                if not g["dead"] and bool(decided(W, g["p"], it["cells"][0])):
                    if it["prio"] >= 0 or g["prio"] < abs(it["prio"]):
                        g["dead"] = True
        gens += [dict(p=it["p"][j], prio=abs(it["prio"]), group=it["group"] or dname, dead=False) for j in kept]
    want = [g for g in gens if not g["dead"]]
    W.check("one cell per generator", m.n_cells == len(want))
    if m.n_cells != len(want):
        return
    names = {int(v): k for k, v in m.user_dict["CellGroup"].items()}
    X = [m.cell_data[k] for k in "XYZ"]
    u = [a for a in range(3) if a != axis]
    rest = list(range(m.n_cells))
    for g in want:
        hit = [i for i in rest if bool(W.and_(W.abs(X[u[0]][i] - g["p"][0]) <= 1e-6, W.abs(X[u[1]][i] - g["p"][1]) <= 1e-6))]
        W.check("each generator has its cell", len(hit) == 1)
        if not hit:
            return
        i = hit[0]
        rest.remove(i)
        W.check("plane of the mesh", X[axis][i] == 0.0)
        W.check("group", names.get(int(W.val(m.cell_data["CellGroup"][i]))) == g["group"])
    W.check("no unused group", set(names.values()) == {g["group"] for g in want})


def row(W, axis=2, kind="structured", own=True):
    """A row of three cells with groups of their own, partly outside of the background."""
    np, pv, pvg = W.np, W.pv, W.pvg
    bg = background(W, kind, axis)
    x = W.real("x", -5, 5)
    G, w = ["P", "Q", "R"], 1.75
    P = [(x + w * i, 0.5 + 1.25 * j) for j in range(2) for i in range(4)]
    Q = np.array([place(W, p, axis, 1.0) for p in P])
    if kind == "structured":
        d = [4, 2]
        d.insert(axis, 1)
        m = structured(W, Q, tuple(d))
    else:
        m = pv.UnstructuredGrid(np.array([4, 0, 1, 5, 4, 4, 1, 2, 6, 5, 4, 2, 3, 7, 6]), np.array([9, 9, 9]), Q)
    if own:
        m.cell_data["CellGroup"] = np.array([4, 0, 2])
        m.user_dict["CellGroup"] = {"P": 4, "Q": 0, "R": 2}
    name = W.choice("group", [None, "A"])
    ml = W.choice("min_length", [None, 0.0])
    cells = [[P[i], P[i + 1], P[i + 5], P[i + 4]] for i in range(3)]
    mid = [(x + w * (i + 0.5), 1.125) for i in range(3)]
    gens = [((2.0 * (i % 3) + 1.0, 2.0 * (i // 3) + 1.0), "D") for i in range(6)]
    for p in mid:
        W.assume(W.and_(away(W, p, BOX), *[W.abs(p[0] - g[0][0]) >= 1 / 8 for g in gens]))
    for c in cells:
        for g in gens:
            W.assume(away(W, g[0], c))
    voronoi_rings(W, lambda pts: [[(0.1 + 0.3 * i, 0.1), (0.3 + 0.3 * i, 0.1), (0.3 + 0.3 * i, 0.4), (0.1 + 0.3 * i, 0.4)] for i in range(len(pts))])
    r = pvg.VoronoiMesh2D(bg, axis, default_group="D").add(m, group=name).generate_mesh(**({} if ml is None else {"min_length": ml}))
    kept = [i for i in range(3) if bool(decided(W, mid[i], BOX))]
    want = [g for g in gens if not any(bool(decided(W, g[0], cells[i])) for i in kept)] + [(mid[i], name or (G[i] if own else "D")) for i in kept]
    W.check("one cell per generator", r.n_cells == len(want))
    if r.n_cells != len(want):
        return
    lab = {int(v): k for k, v in r.user_dict["CellGroup"].items()}
    X = [r.cell_data[k] for k in "XYZ"]
    u = [a for a in range(3) if a != axis]
    for p, g in want:
        hit = [i for i in range(r.n_cells) if bool(W.and_(W.abs(X[u[0]][i] - p[0]) <= 1e-6, W.abs(X[u[1]][i] - p[1]) <= 1e-6))]
        W.check("each generator has its cell", len(hit) == 1)
        if hit:
            W.check("group", lab.get(int(W.val(r.cell_data["CellGroup"][hit[0]]))) == g)
    W.check("no unused group", set(lab.values()) == {g for _, g in want})


def collapsed(W, axis=2, last=False):
    """A cell smaller than the minimum length disappears, the others keep their generator and group."""
    np, pvg = W.np, W.pvg
    bg = background(W, "structured", axis)
    c = (W.real("x", 1.75, 2.25), W.real("y", 1.75, 2.25))
    e = W.real("e", 1 / 64, 1 / 32)
    side = [(c[0] + e, c[1]), (c[0] - e, c[1]), (c[0], c[1] + e), (c[0], c[1] - e)]
    at = W.choice("at", [0, 1, 3]) if not last else 4
    pts = side[:at] + [c] + side[at:]
    names = ["A", "B", "A", "C"]
    names = names[:at] + ["gone"] + names[at:]
    v = pvg.VoronoiMesh2D(bg, axis, default_group="D")
    cover = W.flag("cover")
    if cover:
        # a cell replacing the third generator of the background
        d = [2, 2]
        d.insert(axis, 1)
        v.add(structured(W, np.array([place(W, (4.25 + 1.25 * i, 0.25 + 1.25 * j), axis, 1.0) for j in range(2) for i in range(2)]), tuple(d)), group="E")
    for p, g in zip(pts, names):
        v.add([list(p)], group=g)
    ring = lambda i, w: [(0.1 + 0.5 * i, 0.1), (0.1 + w + 0.5 * i, 0.1), (0.1 + w + 0.5 * i, 0.1 + w), (0.1 + 0.5 * i, 0.1 + w)]
    voronoi_rings(W, lambda p: [ring(i, 0.01 if i == 6 + at else 0.3) for i in range(len(p))])
    m = v.generate_mesh(min_length=1 / 16)
    want = [((2.0 * (i % 3) + 1.0, 2.0 * (i // 3) + 1.0), "D") for i in range(6) if not (cover and i == 2)] + ([((4.875, 0.875), "E")] if cover else []) + [(p, g) for p, g in zip(pts, names) if g != "gone"]
    W.check("one cell per generator left", m.n_cells == len(want))
    if m.n_cells != len(want):
        return
    lab = {int(v): k for k, v in m.user_dict["CellGroup"].items()}
    X = [m.cell_data[k] for k in "XYZ"]
    u = [a for a in range(3) if a != axis]
    for p, g in want:
        hit = [i for i in range(m.n_cells) if bool(W.and_(W.abs(X[u[0]][i] - p[0]) <= 1e-6, W.abs(X[u[1]][i] - p[1]) <= 1e-6))]
        W.check("each generator has its cell", len(hit) == 1)
        if hit:
            W.check("group", lab.get(int(W.val(m.cell_data["CellGroup"][hit[0]]))) == g)
    W.check("no unused group", set(lab.values()) == {g for _, g in want})


SHAPES = {
    "quad": lambda w: [(0.0, 0.0), (w, 0.0), (w, 1.0), (0.0, 1.0)],
    "triangle": lambda w: [(0.0, 0.0), (1.0, 0.5), (0.25, 1.0 + w)],
    "penta": lambda w: [(0.5, 0.0), (1.0, 0.5), (0.5 + w, 1.5), (0.0, 1.5), (-0.5, 0.5)],
    "ell": lambda w: [(0.0, 0.0), (2.0 + w, 0.0), (2.0 + w, 1.0), (1.0, 1.0), (1.0, 3.0), (0.0, 3.0)],
}


def orientation(W, shape="quad", axis=2):
    np, pvg = W.np, W.pvg
    at = (W.real("ox", -1e5, 1e5), W.real("oy", -1e5, 1e5))
    w = W.real("w", 1 / 2, 4)
    wind = [W.flag(f"cw{i}") for i in range(2)] + [False, True, False, False]
    want = W.choice("orientation", [None, "CCW", "CW"])
    # in the encoding the background is elsewhere: the rings stand for the clipped cells
    bg = background(W, "structured", axis) if W.sym else background(W, "structured", axis, at=at, step=w)
    rings = []
    for i in range(6):
        r = [(at[0] + 20.0 * i + a, at[1] + b) for a, b in SHAPES[shape](w)]
        rings.append(r[::-1] if wind[i] else r)
    voronoi_rings(W, lambda pts: rings)
    v = pvg.VoronoiMesh2D(bg, axis)
    m = v.generate_mesh(**({"orientation": want} if want else {}))
    W.check("cells", m.n_cells == 6)
    conn, off = [int(x) for x in m.cell_connectivity], [int(x) for x in m.offset]
    u = [a for a in range(3) if a != axis]
    for i in range(m.n_cells):
        P = [list(m.points[j]) for j in conn[off[i] : off[i + 1]]]
        a = 0.0
        for p, q in zip(P[1:-1], P[2:]):
            a = a + (p[u[0]] - P[0][u[0]]) * (q[u[1]] - P[0][u[1]]) - (p[u[1]] - P[0][u[1]]) * (q[u[0]] - P[0][u[0]])
        W.check("orientation", a < 0.0 if want == "CW" else a > 0.0)
        if W.sym:
            W.check("nodes of the cell", len(P) == len(rings[i]))
            for r in rings[i]:
                W.check("nodes of the cell kept", W.or_(*[same_point(W, (p[u[0]], p[u[1]]), r, 1e-6) for p in P]))


def instances(tier):
    q = tier == "quick"
    out = []
    for k, a in (("quad", 2), ("triangle", 0), ("penta", 1), ("ell", 2)):
        out.append(Instance(f"orientation-{k}", orientation, f"cells of shape {k}", shape=k, axis=a, replays=8))
    sets = [(("points",), 0, "structured", "cell"), (("quad",), 1, "unstructured", "cell"), (("triangle",), 2, "structured", "cell"), (("points", "quad"), 2, "structured", "cell"), (("quad", "points"), 2, "unstructured", "cell"), (("quad",), 2, "structured", "point")]
    if not q:
        sets += [(("quad", "triangle"), 1, "structured", "cell"), (("quad", "points2"), 0, "structured", "cell"), (("triangle", "quad", "points"), 2, "structured", "cell"), (("quad", "points"), 2, "structured", "point")]
    for its, a, kd, pf in sets:
        out.append(Instance("-".join(its) + f"-{a}-{pf}", selection, f"{len(its)} items on {kd} background, {pf}s", items=its, axis=a, kind=kd, pref=pf, again=a == 0, free=1 if q and len(its) > 1 else 2, max_paths=4000, replays=25))
    out.append(Instance("row", row, "3 cells with groups of their own", axis=2, replays=10))
    out.append(Instance("row-unstructured", row, "3 cells", axis=0, kind="unstructured", own=not q, replays=10))
    out.append(Instance("collapsed", collapsed, "5 points close together", axis=2, replays=8))
    out.append(Instance("collapsed-last", collapsed, "5 points close together", axis=0, last=True, replays=8))
    out.append(Instance("named-background", selection, "background with groups", items=("points",), named=True, free=1 if q else 2, replays=10))
    return out
