"""Neighbours of each cell and the lines joining them."""
from .lib import *
from .meshes import *

BOUNDS = "the meshes of C17 (2-6 cells of every supported type, empty/hidden cells, facets shared by more than two cells or by none, flat meshes), structured grids and stacks; given or computed cell centres"


def pairs_of(want):
    return sorted(tuple(sorted(p)) for _, c in want for p in itertools.combinations(c, 2))


def verify(W, u, n, want, remove, centers=None, C=None):
    np, pvg = W.np, W.pvg
    pairs = pairs_of(want)
    kw = {} if remove else dict(remove_ghost_cells=False)
    nb = pvg.get_neighborhood(u, **kw)
    W.check("one entry per cell", len(nb) == n)
    for i in range(n):
        exp = sorted([b for a, b in pairs if a == i] + [a for a, b in pairs if b == i])
        W.check("neighbours", sorted(int(v) for v in nb[i]) == exp)
        W.check("not its own neighbour", i not in [int(v) for v in nb[i]])
    for i in range(n):
        for j in nb[i]:
            W.check("symmetric", i in [int(v) for v in nb[int(j)]])
    r = pvg.get_connectivity(u, cell_centers=C, **kw)
    conn = [int(v) for v in r.lines]
    got = sorted(tuple(sorted(conn[k + 1 : k + 3])) for k in range(0, len(conn), 3))
    W.check("one segment per shared facet", got == pairs and all(conn[k] == 2 for k in range(0, len(conn), 3)))
    W.check("one node per cell", r.n_points == n)
    if centers is not None:
        for i in range(n):
            if centers[i] is not None:
                W.eq("nodes at the cell centres", r.points[i], np.array(centers[i]))


def run(W, mesh="mixed-2d", flat=None, hidden=None, given=True):
    np, pv, pvg = W.np, W.pv, W.pvg
    m = MESHES[mesh]
    P, ref = m.points(W, flat)
    remove = W.flag("remove")
    u = m.build(W, P)
    hide = set()
    n = len(m.cells)
    if hidden is not None:
        h = W.choice("hidden", hidden)
        g = np.zeros(n, dtype=np.uint8)
        g[h] = 32
        u.cell_data["vtkGhostType"] = g
        hide = {h} if remove else set()
    C = W.arr("c", (n, 3), -9, 9) if given else None
    if given:
        cs = [list(c) for c in C]
    else:
        cs = []
        for kind, c in m.cells:
            nodes = list(c)
            cs.append([sum(P[j][a] for j in nodes) * (1.0 / len(nodes)) for a in range(3)] if nodes and kind in ("triangle", "quad", "pixel", "hexa", "voxel", "wedge", "tetra", "line") else None)
    verify(W, u, n, expected(m, ref, hide, drop=remove), remove, cs, C)


def stack(W, axis=2, structured=True, given=True):
    """A stack with a layer that pinches out: hidden cells stop being neighbours (and, in an
    unstructured mesh, the cells above and below it become neighbours)."""
    np, pv, pvg = W.np, W.pv, W.pvg
    z = [0.0, W.real("z1", 1, 3), W.real("z2", 4, 6)]
    t = W.real("t", 0, 1)
    W.assume(W.or_(t == 0.0, t >= 1 / 8))
    P = np.array([[float(i), float(j), 0.0] for j in range(2) for i in range(3)])
    from .lib import structured as mk

    if structured:
        base = mk(W, P, (3, 2, 1))
    else:
        base = pv.UnstructuredGrid(np.array([4, 0, 1, 4, 3, 4, 1, 2, 5, 4]), np.array([9, 9]), P)
    s = pvg.MeshStack3D(base)
    s.add(z[0])
    s.add(z[1])
    # second layer: thickness t over the first cell, 1 at the far end
    s.add(lambda x, y, zz: np.array([z[1] + (t if float(W.val(v)) < 1.5 else 1.0) for v in np.ravel(x)]).reshape(np.shape(x)))
    s.add(z[2] + 2.0)
    m = s.generate_mesh()
    n = m.n_cells
    W.check("cells", n == 6)
    remove = W.flag("remove")
    col = [int(W.val(v)) for v in m.cell_data["ColumnId"]]
    lay = [int(W.val(v)) for v in m.cell_data["LayerId"]]
    at = {(c, l): i for i, (c, l) in enumerate(zip(col, lay))}
    pinched = bool(t == 0.0)
    pairs = set()
    for c, l in at:
        for q in ((c + 1, l), (c, l + 1)):
            if q in at:
                pairs.add(tuple(sorted((at[c, l], at[q]))))
    hid = at[0, 1]
    if pinched:
        if remove:
            pairs = {p for p in pairs if hid not in p}
        elif not structured:
            # both faces of the collapsed cell are one facet, its sides are segments
            pass
        if not structured:
            pairs.add(tuple(sorted((at[0, 0], at[0, 2]))))
    nb = pvg.get_neighborhood(m, remove_ghost_cells=remove)
    for i in range(n):
        exp = {b for a, b in pairs if a == i} | {a for a, b in pairs if b == i}
        W.check("neighbours", {int(v) for v in nb[i]} == exp and len(nb[i]) == len(exp))


def grid(W, kind="image"):
    """Image data and rectilinear grids, polygonal data."""
    np, pv, pvg = W.np, W.pv, W.pvg
    nx, ny = W.choice("nx", [1, 2, 3]), W.choice("ny", [1, 2])
    if kind == "polydata":
        X = W.arr("s", 2, 1 / 4, 4)
        P = np.array([[X[0] * float(i), X[1] * float(j), 0.0] for j in range(ny + 1) for i in range(nx + 1)])
        f = []
        for j in range(ny):
            for i in range(nx):
                a = i + (nx + 1) * j
                f += [4, a, a + 1, a + nx + 2, a + nx + 1]
        g = pv.PolyData(P, faces=f)
    elif kind == "rectilinear":
        g = pv.RectilinearGrid(np.arange(nx + 1) * 1.5, np.arange(ny + 1) * 0.5, np.array([0.0]))
    else:
        g = pv.ImageData(dimensions=(nx + 1, ny + 1, 1))
    nb = pvg.get_neighborhood(g)
    for j in range(ny):
        for i in range(nx):
            exp = {i + d + nx * j for d in (-1, 1) if 0 <= i + d < nx} | {i + nx * (j + d) for d in (-1, 1) if 0 <= j + d < ny}
            got = [int(v) for v in nb[i + nx * j]]
            W.check("neighbours", set(got) == exp and len(got) == len(exp))


def refused(W):
    np, pvg = W.np, W.pvg
    m = MESHES["mixed-2d"]
    P, _ = m.points(W)
    u = m.build(W, P)
    C = W.arr("c", W.choice("shape", [(5, 2), (4, 3), (5,)]), 0, 1)
    W.check("refused", W.raises(ValueError, lambda: pvg.get_connectivity(u, cell_centers=C)))


def instances(tier):
    q = tier == "quick"
    out = [Instance(k, run, f"{len(m.cells)} cells", mesh=k, flat=(None if k.startswith("apart") else 1 if m.dim < 3 else 2), replays=8) for k, m in MESHES.items()]
    for k in ["mixed-2d", "hexas", "mixed-3d", "polyhedra", "wedges", "non-manifold-2d"]:
        out.append(Instance(f"{k}-hidden", run, "one hidden cell", mesh=k, hidden=list(range(len(MESHES[k].cells))), flat=None if q else 0, replays=8))
    for k in ["hexas", "wedges", "tetras", "pixels-2d", "voxels"]:
        out.append(Instance(f"{k}-centres", run, "computed centres", mesh=k, given=False, replays=8))
    out += [Instance("stack-structured", stack, "2 columns, 3 layers"), Instance("stack-unstructured", stack, "2 columns, 3 layers", structured=False)]
    out += [Instance(f"grid-{k}", grid, "up to 3 x 2 cells", kind=k) for k in ("polydata", "rectilinear", "image")]
    out.append(Instance("refused", refused, "centres of the wrong shape"))
    return out
