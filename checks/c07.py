"""Intersecting stack items: the item with the lower priority is cut, down to the minimum thickness."""
from .lib import *

BOUNDS = "stacks of 2-3 items (4 thorough) over 2 nodes (2D) or 4 nodes (3D, structured and unstructured), independent symbolic elevation of every item at every node in [-9, 9], symbolic minimum thickness in [0, 3], priorities from -2 to 1 (2 in 3D), both stacking directions, every stacking axis"


def cut(W, z, prio, th, sg):
    """The documented rule at one node: consecutive items are compared in stacking order."""
    z = list(z)
    for k in range(len(z) - 1):
        c = sg * (z[k + 1] - z[k]) < th[k + 1]
        if prio[k + 1] < prio[k]:
            z[k + 1] = W.ite(c, z[k] + sg * th[k + 1], z[k + 1])
        else:
            z[k] = W.ite(c, z[k + 1] - sg * th[k + 1], z[k])
    return z


def add(s, a, **k):
    return s.add(lambda x, y, z: a, **k)


def stack2d(W, items=2, axes=(0, 1, 2), zero=False):
    np, pv, pvg = W.np, W.pv, W.pvg
    axis = W.choice("axis", list(axes))
    up = W.flag("bottom_up")
    sg = 1.0 if up else -1.0
    Z = W.arr("z", (items, 2), -9, 9)
    prio = [W.choice(f"p{k}", [0, 1, -2] if items < 3 else [0, -1]) for k in range(items)]
    th = [0.0] + [W.choice(f"th{k}", [0.0]) if zero else W.real(f"th{k}", 0.0, 3.0) for k in range(1, items)]
    s = pvg.MeshStack2D([0.0, 4.0], axis, up)
    for k in range(items):
        add(s, Z[k], priority=prio[k], thickness=th[k])
    m = s.generate_mesh()
    got = m.points
    dims = {0: (items, 2, 1), 1: (2, items, 1), 2: (2, 1, items)}[axis]
    W.check("dimensions", tuple(m.dimensions) == dims)
    for i in range(2):
        z = cut(W, Z[:, i], prio, th, sg)
        for k in range(items):
            p = got[k + items * i] if axis == 0 else got[i + 2 * k]
            want = [0.0, 0.0, 0.0]
            want[(axis + 1) % 3], want[axis] = 4.0 * i, z[k]
            W.eq("elevation after cutting", p, np.array(want))
        if items == 2:
            W.le("minimum thickness", th[1], sg * (z[1] - z[0]))


BASE = {"structured": [(0.0, 0.0), (4.0, 0.0), (0.0, 3.0), (4.0, 3.0)], "triangle": [(0.0, 0.0), (4.0, 0.0), (0.0, 3.0)]}


def stack3d(W, kind="structured", items=2, axes=(0, 1, 2)):
    np, pv, pvg = W.np, W.pv, W.pvg
    axis = W.choice("axis", list(axes))
    up = W.flag("bottom_up")
    sg = 1.0 if up else -1.0
    B = BASE[kind]
    n = len(B)
    u, v = [a for a in range(3) if a != axis]
    P = [[0.0] * 3 for _ in B]
    for p, (a, b) in zip(P, B):
        p[u], p[v] = a, b
    if kind == "structured":
        d = [2, 2, 2]
        d[axis] = 1
        base = structured(W, np.array(P), tuple(d))
    else:
        base = pv.UnstructuredGrid(np.array([3, 0, 1, 2]), np.array([5]), np.array(P))
    Z = W.arr("z", (items, n), -9, 9)
    prio = [W.choice(f"p{k}", [0, 1]) for k in range(items)]
    # a positive minimum thickness keeps the nodes apart: the unstructured result is not merged
    th = [0.0] + [W.real(f"th{k}", 0.0 if kind == "structured" else 0.125, 3.0) for k in range(1, items)]
    s = pvg.MeshStack3D(base, axis, up)
    for k in range(items):
        add(s, Z[k], priority=prio[k], thickness=th[k])
    m = s.generate_mesh()
    E = [cut(W, Z[:, i], prio, th, sg) for i in range(n)]
    W.check("cells", m.n_cells == items - 1)
    if kind == "structured":
        dims = [2, 2, 2]
        dims[axis] = items
        W.check("dimensions", tuple(m.dimensions) == tuple(dims))
        for k in range(items):
            for i in range(4):
                g = [0, 0, 0]
                g[u], g[v], g[axis] = i % 2, i // 2, k
                want = list(P[i])
                want[axis] = E[i][k]
                W.eq("elevation after cutting", m.points[sidx(dims, *g)], np.array(want))
    else:
        for c, ids in enumerate(pvg.get_cell_connectivity(m)):
            for q, j in enumerate(ids):
                want = list(P[q % n])
                want[axis] = E[q % n][c + q // n]
                W.eq("elevation after cutting", m.points[int(j)], np.array(want))


def visible(W):
    """An eroded layer disappears: it is hidden where both ends are cut, and only there."""
    np, pvg = W.np, W.pvg
    up = W.flag("bottom_up")
    sg = 1.0 if up else -1.0
    z = W.arr("z", 3, -9, 9)
    th = W.real("gap", 0.25, 5.0)
    over = [W.flag(f"over{i}") for i in range(3)]
    Z2 = [z[i] - sg * th if over[i] else z[i] + sg * th for i in range(3)]
    p = W.choice("p", [0, 1])
    s = pvg.MeshStack2D([0.0, 1.0, 2.0], 2, up)
    add(s, z, priority=p)
    add(s, np.array(Z2))
    m = s.generate_mesh()
    g = ghost(W, m)
    for c in range(2):
        gone = over[c] and over[c + 1]
        W.check("eroded cell is hidden" if gone else "cell with thickness is visible", g[c] == (32 if gone else 0))
        if not gone and not over[c] and not over[c + 1]:
            W.eq("untouched", m.points[c], np.array([float(c), 0.0, z[c]]))


def deep(W):
    """An item eroding more than the layer below it."""
    np, pvg = W.np, W.pvg
    z3 = W.real("z3", 0.5, 4.5)
    s = pvg.MeshStack2D([0.0, 1.0])
    for z in (0.0, 5.0, 10.0, z3):
        add(s, np.array([z, z]))
    z = s.generate_mesh().points[:, 2].reshape((4, 2))
    W.check("layers are not inverted", W.and_(*[z[k + 1][i] - z[k][i] > -1e-3 for k in range(3) for i in range(2)]))


def instances(tier):
    q = tier == "quick"
    out = [Instance(f"line-2-axis{a}", stack2d, "2 items", items=2, axes=(a,)) for a in (0, 1, 2)]
    out += [Instance("line-3", stack2d, "3 items", items=3, axes=(2,))]
    if not q:
        out += [Instance(f"line-3-axis{a}", stack2d, "3 items", items=3, axes=(a,)) for a in (0, 1)]
        out += [Instance("line-4", stack2d, "4 items", items=4, axes=(2,))]
    out += [Instance(f"grid-2-axis{a}", stack3d, "2 items", kind="structured", items=2, axes=(a,)) for a in (0, 1, 2)]
    out += [Instance("triangle-2", stack3d, "2 items", kind="triangle", items=2, axes=(2,) if q else (0, 1, 2))]
    if not q:
        out += [Instance("grid-3", stack3d, "3 items", kind="structured", items=3, axes=(2,))]
    out += [Instance("visible", visible, "2 items, 3 nodes"), Instance("deep-erosion", deep, "4 items, equal priorities")]
    return out
