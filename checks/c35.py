"""Transitions between lines of different resolutions in 2D stacks."""
from .c32 import identical
from .c34 import outline
from .lib import *

BOUNDS = "2D stacks of 2-4 lines along any axis and in both directions, with one or two transitions (the first, the middle or the last layer) to 1-4 cells or to a given line with the same ends, or (without generating) with other ends; symbolic elevation of every node of the first line and of each added thickness or profile; 1-2 sublayers in the other layers; groups given by functions; base lines that are not level; transitions cut by a later item or cutting it"
ASSUMPTIONS = ["gmsh is abstract in the encoding: it returns some triangulation bounded by the loop it was given (replays run the real one)"]
X = [0.0, 1.0, 3.0]


def at(xs, zs, x):
    """Piecewise linear interpolation."""
    for a, b, u, v in zip(xs, xs[1:], zs, zs[1:]):
        if a <= x <= b:
            return u + (x - a) / (b - a) * (v - u)


def pt(axis, x, z):
    p = [0.0, 0.0, 0.0]
    p[(axis + 1) % 3], p[axis] = x, z
    return p


def line(W, axis, xs):
    return W.pv.PolyData(W.np.array([pt(axis, x, 7.0) for x in xs]), lines=[len(xs), *range(len(xs))])


def stack(W, axis=2, plan=("t", "n"), profile=True, tos=(1, 2, 4, "line"), dicts=False, sloped=False):
    np, pvg = W.np, W.pvg
    up = W.flag("bottom_up")
    sg = 1.0 if up else -1.0
    base = X
    if sloped:
        # the base line itself is not level: 1 and 2.5 along it
        base = W.pv.PolyData(np.array([pt(axis, x, z) for x, z in zip(X, (0.0, 0.0, 1.5))]), lines=[3, 0, 1, 2])
    s = pvg.MeshStack2D(base, axis, up, default_group="rest")
    xs = list(X)
    if profile:
        zs = [W.real(f"z{i}", -1, 1) for i in range(3)]
        s.add(np.array([pt(axis, x, z) for x, z in zip(xs, zs)]))
    else:
        z = W.real("z", -1, 1)
        zs = [z] * 3
        s.add(z)
    L = [(xs, zs)]
    names = []
    for k, kind in enumerate(plan):
        if kind == "t":
            new = W.choice(f"to{k}", list(tos))
            ret = None
            if new == "line":
                xn = [0.0, 0.5, 1.5, 2.0, 3.0] if k == 0 else [0.0, 2.0, 3.0]
                ret = s.set_transition(line(W, axis, xn))
            else:
                xn = [at([0.0, 1.0, 3.5], X, 3.5 * i / new) for i in range(new + 1)] if sloped else [3.0 * i / new for i in range(new + 1)]
                ret = s.set_transition(new)
            W.check("the stack itself is returned", ret is s)
            xs_new = xn
        else:
            xs_new = xs
        d = W.real(f"d{k}", 2, 4)
        g = W.choice(f"g{k}", ([None, f"G{k}", "one"] if k == 0 else [f"G{k}"]) if kind == "n" or not dicts else [f"G{k}", "all", "one"])
        name = (f"G{k}", g) if g in ("all", "one") else (g or "rest", "all")
        if g == "all":
            g = {f"G{k}": lambda m: np.ones(m.n_cells, dtype=bool)}
        elif g == "one":
            g = {f"G{k}": lambda m: np.arange(m.n_cells) == 0}
        how = W.choice(f"h{k}", ["scalar", "profile", "function"] if kind == "t" else ["scalar"])
        res = W.choice(f"r{k}", [None, 2]) if kind == "n" else None
        if how == "scalar":
            zn = [at(xs, zs, x) + sg * d for x in xs_new]
            s.add(d, res, group=g)
        elif how == "profile":
            e = [5 * (k + 1) * sg + W.real(f"e{k}{i}", -1, 1) for i in range(2)]
            zn = [at([0.0, 3.0], e, x) for x in xs_new]
            s.add(np.array([pt(axis, 3.0, e[1]), pt(axis, 0.0, e[0])]), res, group=g)
        else:
            zn = [5 * (k + 1) * sg + d * (0.25 * x) for x in xs_new]
            c = (axis + 1) % 3
            s.add(lambda *p, d=d, k=k: 5 * (k + 1) * sg + d * (0.25 * p[c]), res, group=g)
        xs, zs = xs_new, zn
        L.append((xs, zs))
        names.append((kind, res or 1, name))
    m = s.generate_mesh()
    judge(W, m, axis, L, names)


def judge(W, m, axis, L, names):
    np = W.np
    lay, col, item, grp = ([int(v) for v in m.cell_data[k]] for k in ("LayerId", "ColumnId", "StackItem", "CellGroup"))
    conn, off = [int(v) for v in m.cell_connectivity], [int(v) for v in m.offset]
    types = [int(t) for t in m.celltypes]
    cells = [conn[off[i] : off[i + 1]] for i in range(m.n_cells)]
    P = [list(p) for p in m.points]
    G = {v: k for k, v in m.user_dict["CellGroup"].items()}
    W.check("no leftover marker", "vtkGhostType" not in m.cell_data)
    W.check("numbers of the groups", sorted(G) == list(range(len(G))))
    W.check("used groups", set(G.values()) == {n for _, _, (n, _) in names} | ({"rest"} if any(w == "one" for _, _, (_, w) in names) else set()))
    tol = 0.0 if W.sym else 1e-5
    layer = 0
    used = 0
    for k, ((kind, nsub, name), (xa, za), (xb, zb)) in enumerate(zip(names, L, L[1:])):
        mine = [i for i in range(m.n_cells) if item[i] == k]
        name, which = name
        if which == "all":
            W.check("group of the item", all(G[grp[i]] == name for i in mine))
        elif kind == "t":
            W.check("group of some cells of the item", sum(G[grp[i]] == name for i in mine) == 1 and all(G[grp[i]] in (name, "rest") for i in mine))
        else:
            W.check("group of a column of the item", all(G[grp[i]] == (name if col[i] == 0 else "rest") for i in mine))
        W.check("cells of the item", len(mine) > 0)
        used += len(mine)
        a = [pt(axis, x, z) for x, z in zip(xa, za)]
        b = [pt(axis, x, z) for x, z in zip(xb, zb)]
        if kind == "t":
            W.check("one layer", all(lay[i] == layer for i in mine))
            W.check("no column", all(col[i] == -1 for i in mine))
            W.check("triangles", all(types[i] == 5 for i in mine))
            bounded(W, P, [cells[i] for i in mine], a + b[::-1])
            layer += 1
            continue
        n = len(xa) - 1
        W.check("cells of the layer", len(mine) == n * nsub)
        for l in range(nsub):
            for c in range(n):
                hit = [i for i in mine if lay[i] == layer + l and col[i] == c]
                W.check("layer and column", len(hit) == 1)
                if len(hit) != 1:
                    continue
                q = [lerp(a[j], b[j], t / nsub) for j, t in ((c, l), (c + 1, l), (c + 1, l + 1), (c, l + 1))]
                got = [P[v] for v in cells[hit[0]]]
                W.check("quadrilateral", len(got) == 4)
                o = [close(W, got, r) for r in q]
                W.check("corners", None not in o and sorted(o) == [0, 1, 2, 3])
                if None not in o:
                    W.check("corners in order", [(o[i + 1] - o[i]) % 4 for i in range(3)] in ([1, 1, 1], [3, 3, 3]))
                    for i, r in zip(o, q):
                        W.eq("corners", np.array(got[i]), np.array(r), tol=1e-5)
        layer += nsub
    W.check("all cells", used == m.n_cells)
    # conforming: cells of successive items share the nodes of their line
    for k, (xs, zs) in enumerate(L[1:-1]):
        for x, z in zip(xs, zs):
            hit = [i for i, p in enumerate(P) if near(W, p, pt(axis, x, z))]
            W.check("layers share the nodes of their line", len(hit) == 1)


def bounded(W, P, cells, ring):
    """The cells are bounded exactly by the ring."""
    cnt = {}
    for c in cells:
        for u, v in zip(c, c[1:] + c[:1]):
            cnt[frozenset((u, v))] = cnt.get(frozenset((u, v)), 0) + 1
    out = {e for e, n in cnt.items() if n == 1}
    W.check("edges held at most twice", max(cnt.values(), default=0) <= 2)
    ids = sorted({v for e in out for v in e})
    idx = [close(W, [P[v] for v in ids], r) for r in ring]
    W.check("nodes of both lines", None not in idx and sorted(idx) == list(range(len(ids))))
    if None not in idx:
        n = [ids[i] for i in idx]
        W.check("bounded by both lines", out == {frozenset(e) for e in zip(n, n[1:] + n[:1])})
        for v, r in zip(n, ring):
            W.eq("nodes lie on both lines", W.np.array(P[v]), W.np.array(r), tol=1e-5)


def eroded(W, axis=2, lower=False):
    """The line on top of a transition is cut by a later item, or cuts it, as any other line."""
    np, pvg = W.np, W.pvg
    up = W.flag("bottom_up")
    sg = 1.0 if up else -1.0
    s = pvg.MeshStack2D(X, axis, up)
    z = W.real("z", -1, 1)
    s.add(z)
    if lower:
        s.add(1.0)
        z = z + sg
    xn = [0.0, 1.5, 3.0]
    s.set_transition(2)
    p = [W.choice(f"p{i}", [0, 1]) for i in range(2)]
    d = W.real("d", 3, 4)
    s.add(d, priority=p[0])
    top = [z + sg * d] * 3
    # above the transition at both ends, above or below it in the middle
    e = [z + sg * (d + 1.0), z + sg * W.real("e", 2, 5), z + sg * (d + 1.5)]
    s.add(np.array([pt(axis, x, v) for x, v in zip(xn, e)]), priority=p[1])
    gap = sg * (e[1] - top[1])
    W.assume(W.abs(gap) >= 1 / 64)
    if bool(gap < 0.0):
        if p[1] < p[0]:
            e[1] = top[1]
        else:
            top[1] = e[1]
    m = s.generate_mesh()
    item = [int(v) for v in m.cell_data["StackItem"]]
    conn, off = [int(v) for v in m.cell_connectivity], [int(v) for v in m.offset]
    cells = [conn[off[i] : off[i + 1]] for i in range(m.n_cells)]
    P = [list(q) for q in m.points]
    k = 1 if lower else 0
    bounded(W, P, [c for c, i in zip(cells, item) if i == k], [pt(axis, x, z) for x in X] + [pt(axis, x, t) for x, t in zip(xn, top)][::-1])
    last = [c for c, i in zip(cells, item) if i == k + 1]
    W.check("cells of the last layer", len(last) == 2)
    for j in range(2):
        q = [pt(axis, xn[j + o], v[j + o]) for v in (top, e) for o in (0, 1)]
        W.check("cells between the lines", any(all(any(near(W, P[v], r) for v in c) for r in q) and all(any(near(W, P[v], r) for r in q) for v in c) for c in last))


def close(W, pts, q):
    hit = [i for i, p in enumerate(pts) if near(W, p, q)]
    return hit[0] if len(hit) == 1 else None


def near(W, p, q):
    """Decided on the expressions when they are the same, by the solver otherwise."""
    return bool(W.and_(*[W.abs(a - b) <= 1e-4 for a, b in zip(p, q)]))


def refused(W):
    """Transitions are for lines."""
    pvg, np, pv = W.pvg, W.np, W.pv
    d = W.real("d", 1, 2)
    s = pvg.MeshStack2D(X).add(0.0)
    s.set_transition(2)
    W.check("base line", s.mesh.n_points == 3)
    s.add(d)
    s.add(d, 2)
    m = s.generate_mesh()
    n = {int(v) for v in m.cell_data["StackItem"]}
    W.check("the flag holds for one layer", n == {0, 1} and sum(int(v) == 1 for v in m.cell_data["StackItem"]) == 4)


def beyond(W):
    """A thickness over a line that reaches beyond the one below is refused, unless extrapolated."""
    np, pvg = W.np, W.pvg
    axis = W.choice("axis", [0, 1, 2])
    sg = 1.0 if W.flag("bottom_up") else -1.0
    zs, t = [W.real(f"z{i}", -1, 1) for i in range(3)], W.real("t", 1 / 4, 2)
    end = W.choice("end", [(0.0, 4.0), (-0.5, 3.0), (-1.0, 5.0), (0.0, 2.5)])
    xn = [end[0], 1.5, end[1]]
    s = pvg.MeshStack2D(X, axis, sg > 0).add(np.array([pt(axis, x, z) for x, z in zip(X, zs)])).set_transition(line(W, axis, xn))
    inside = end[0] >= 0.0 and end[1] <= 3.0
    if not inside and W.flag("refused"):
        W.check("a line that reaches beyond the one below is refused", W.raises(ValueError, s.add, t))
        return
    s.add(t, **({} if inside else {"extrapolation": "nearest"}))
    got = s.items[1].mesh.points
    W.eq("thickness over the line below", got, np.array([pt(axis, x, at(X, zs, min(max(x, 0.0), 3.0)) + sg * t) for x in xn]))


def instances(tier):
    q = tier == "quick"
    out = []
    for axis in range(3):
        for plan in ("t", "tn", "nt") + (() if q else ("ntn", "tt", "ttn", "tnt")):
            out.append(Instance(f"{plan}-axis{axis}", stack, f"{'-'.join(plan)} along axis {axis}", axis=axis, plan=tuple(plan), profile=plan in ("t", "tn", "tt"), replays=6))
    if q:
        out.append(Instance("ntn", stack, "transition in the middle", plan=tuple("ntn"), profile=False, tos=(2, "line"), replays=6))
        out.append(Instance("tt", stack, "two transitions", plan=tuple("tt"), profile=False, tos=(4, "line"), replays=6))
    for plan in ("t", "nt") if q else ("t", "nt", "tn", "ntn"):
        out.append(Instance(f"groups-{plan}", stack, "groups given by functions", plan=tuple(plan), profile=False, tos=(2, "line"), dicts=True, replays=6))
    for a, plan in ((0, "t"), (2, "tn")):
        out.append(Instance(f"sloped-{plan}", stack, "base line that is not level", axis=a, plan=tuple(plan), profile=False, tos=(2, 3), sloped=True, replays=6))
    for a in range(3):
        out.append(Instance(f"eroded-axis{a}", eroded, "transition cut by the next item", axis=a, replays=6))
    out.append(Instance("eroded-later", eroded, "transition on a layer, cut by the next item", lower=True, replays=6))
    out.append(Instance("beyond", beyond, "line with other ends"))
    out.append(Instance("once", refused, "one layer per transition"))
    return out
