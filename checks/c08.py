"""Layer, column and item numbers of stacked and extruded meshes."""
from .lib import *

BOUNDS = "stacks and extrusions of 3 items with 1-3 (4 thorough) subdivisions each, bases of 2 line cells, 2x1 and 2x2 structured cells normal to any axis, and 3 unstructured cells; symbolic thickness and base elevation, both directions, bases with or without numbers of their own"


def levels(W, up, n_items):
    z = W.real("z0", -5, 5)
    d = [W.real(f"d{k}", 0.25, 4.0) for k in range(n_items)]
    return z, d


def common(W, m, item_key, want, axis, lev):
    """want: list of (layer, column, item) per cell."""
    np = W.np
    W.check("cells", m.n_cells == len(want))
    for k, key in enumerate(("LayerId", "ColumnId", item_key)):
        W.check(f"{key} present", key in m.cell_data)
        W.eq(key, m.cell_data[key], np.array([w[k] for w in want]))
    W.check("no leftover marker", "vtkGhostType" not in m.cell_data)
    # the numbers agree with the geometry: layer l lies between levels l and l + 1
    d = tuple(m.dimensions)
    W.check("levels", d[axis] == len(lev))
    if d[axis] == len(lev):
        z = [lev[(i, j, k)[axis]] for k in range(d[2]) for j in range(d[1]) for i in range(d[0])]
        W.eq("layers lie between their levels", m.points[:, axis], np.array(z), tol=1e-5)


def pick_res(W, n_items, nmax):
    out = []
    for k in range(n_items):
        kind = W.choice(f"r{k}", [None] + list(range(2, nmax + 1)) + (["list"] if k == 0 else []))
        out.append((kind if kind != "list" else [0.0, 0.25, 1.0], 2 if kind == "list" else (kind or 1)))
    return out


def layout(res):
    return [(i) for i, (_, n) in enumerate(res) for _ in range(n)]


def stack2d(W, axis=2, n_items=2, nmax=2):
    np, pvg = W.np, W.pvg
    up = W.flag("bottom_up")
    z, d = levels(W, up, n_items)
    res = pick_res(W, n_items, nmax)
    line = [0.0, 1.0, 3.0]
    if W.flag("polyline"):
        P = np.zeros((3, 3))
        P[:, (axis + 1) % 3] = line
        line = leftovers(W, W.pv.PolyData(P, lines=[3, 0, 1, 2]))
    s = pvg.MeshStack2D(line, axis, up).add(z)
    for k, (r, _) in enumerate(res):
        s.add(d[k], r)
    m = s.generate_mesh()
    it = layout(res)
    nl = len(it)
    want = []
    for c in range(2 * nl):
        layer, col = (c % nl, c // nl) if axis == 0 else (c // 2, c % 2)
        want.append((layer, col, it[layer]))
    common(W, m, "StackItem", want, axis, heights(z, d, res, 1.0 if up else -1.0))


UNS = [4, 0, 1, 4, 3, 3, 1, 2, 4, 3, 2, 5, 4]


def leftovers(W, m):
    """The base may come from another generated mesh and still hold its numbers."""
    if W.flag("numbered"):
        for k in ("LayerId", "ColumnId", "StackItem", "ExtrudeItem"):
            m.cell_data[k] = W.np.array([W.int(f"{k}{c}", 0, 9) for c in range(m.n_cells)])
    return m


def base(W, kind, axis):
    np, pv = W.np, W.pv
    if kind == "unstructured":
        P = [[0.0] * 3 for _ in range(6)]
        u, v = [a for a in range(3) if a != axis]
        for i in range(6):
            P[i][u], P[i][v] = float(i % 3), float(i // 3)
        return leftovers(W, pv.UnstructuredGrid(np.array(UNS), np.array([9, 5, 5]), np.array(P))), None
    nu, nv = kind
    d = [1, 1, 1]
    u, v = [a for a in range(3) if a != axis]
    d[u], d[v] = nu + 1, nv + 1
    P = []
    for j in range(nv + 1):
        for i in range(nu + 1):
            p = [0.0] * 3
            p[u], p[v] = float(i), float(j)
            P.append(p)
    return leftovers(W, structured(W, np.array(P), tuple(d))), (nu, nv)


def numbering(axis, shape, it):
    """(layer, column, item) in the order of the cells of the generated mesh."""
    nl = len(it)
    if shape is None:
        return [(layer, c, it[layer]) for layer in range(nl) for c in range(3)]
    u, v = [a for a in range(3) if a != axis]
    n = [0, 0, 0]
    n[u], n[v], n[axis] = shape[0], shape[1], nl
    out = []
    for k in range(n[2]):
        for j in range(n[1]):
            for i in range(n[0]):
                g = (i, j, k)
                out.append((g[axis], g[u] + shape[0] * g[v], it[g[axis]]))
    return out


def stack3d(W, kind=(2, 1), axis=2, n_items=2, nmax=2):
    np, pvg = W.np, W.pvg
    up = W.flag("bottom_up")
    z, d = levels(W, up, n_items)
    res = pick_res(W, n_items, nmax)
    b, shape = base(W, kind, axis)
    s = pvg.MeshStack3D(b, axis, up).add(z)
    for k, (r, _) in enumerate(res):
        s.add(d[k], r)
    m = s.generate_mesh()
    if shape is None:
        by_geometry(W, m, "StackItem", axis, heights(z, d, res, 1.0 if up else -1.0), layout(res))
    else:
        common(W, m, "StackItem", numbering(axis, shape, layout(res)), axis, heights(z, d, res, 1.0 if up else -1.0))


def heights(z, d, res, sg):
    out = [z]
    for dk, (r, n) in zip(d, res):
        t = r if isinstance(r, list) else [i / n for i in range(n + 1)]
        z0 = out[-1]
        out += [z0 + sg * dk * x for x in t[1:]]
    return out


def by_geometry(W, m, item_key, axis, lev, it):
    """Unstructured results come in any cell order: the numbers must describe where the cell is."""
    np, pvg = W.np, W.pvg
    nl = len(it)
    W.check("cells", m.n_cells == 3 * nl)
    u, v = [a for a in range(3) if a != axis]
    cells = [[0, 1, 4, 3], [1, 2, 4], [2, 5, 4]]
    conn = pvg.get_cell_connectivity(m)
    ids = [tuple(int(W.val(m.cell_data[k][c])) for k in ("LayerId", "ColumnId", item_key)) for c in range(m.n_cells)]
    W.check("every layer and column once", sorted(i[:2] for i in ids) == [(a, b) for a in range(nl) for b in range(3)])
    for c, (layer, col, item) in enumerate(ids):
        if not (0 <= layer < nl and 0 <= col < 3):
            continue
        W.check(item_key, item == it[layer])
        base_ = cells[col]
        W.check("cell size", len(conn[c]) == 2 * len(base_))
        for q, j in enumerate(conn[c]):
            i = base_[q % len(base_)]
            want = [0.0] * 3
            want[u], want[v], want[axis] = float(i % 3), float(i // 3), lev[layer + q // len(base_)]
            W.eq("cell lies in its layer and column", m.points[int(j)], np.array(want), tol=1e-5)


def extrude(W, kind=(2, 1), axis=2, n_items=2, nmax=2):
    np, pvg = W.np, W.pvg
    sg = W.choice("sign", [1.0, -1.0])
    _, d = levels(W, True, n_items)
    res = pick_res(W, n_items, nmax)
    b, shape = base(W, kind, axis)
    s = pvg.MeshExtrude(b)
    for k, (r, _) in enumerate(res):
        v = [0.0, 0.0, 0.0]
        v[axis] = sg * d[k]
        s.add(v, r)
    m = s.generate_mesh()
    if shape is None:
        by_geometry(W, m, "ExtrudeItem", axis, heights(0.0, d, res, sg), layout(res))
    else:
        common(W, m, "ExtrudeItem", numbering(axis, shape, layout(res)), axis, heights(0.0, d, res, sg))


def instances(tier):
    q = tier == "quick"
    n = 3 if q else 4
    it = 3
    out = [Instance(f"line-axis{a}", stack2d, f"2 cells, {it} items, <= {n} subdivisions", axis=a, n_items=it, nmax=n, replays=8) for a in (0, 1, 2)]
    for a in (0, 1, 2):
        for kind in ((2, 1), (2, 2)) if not q else ((2, 1),) if a else ((2, 2),):
            out.append(Instance(f"stack-{kind[0]}x{kind[1]}-axis{a}", stack3d, f"{it} items, <= {n} subdivisions", kind=kind, axis=a, n_items=it, nmax=n, replays=8))
            out.append(Instance(f"extrude-{kind[0]}x{kind[1]}-axis{a}", extrude, f"{it} items, <= {n} subdivisions", kind=kind, axis=a, n_items=it, nmax=n, replays=8))
    for a in (2,) if q else (0, 1, 2):
        out.append(Instance(f"stack-unstructured-axis{a}", stack3d, f"{it} items, <= {n} subdivisions", kind="unstructured", axis=a, n_items=it, nmax=n, replays=8))
        out.append(Instance(f"extrude-unstructured-axis{a}", extrude, f"{it} items, <= {n} subdivisions", kind="unstructured", axis=a, n_items=it, nmax=n, replays=8))
    return out
