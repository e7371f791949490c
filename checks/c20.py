"""Connectivity and dimension of meshes."""
from .lib import *
from .meshes import *

BOUNDS = "meshes of 2-6 cells of every supported type, structured/image/rectilinear grids up to 3 nodes per axis, polygonal data; every VTK cell type for the dimension, alone or with a second cell"


def conn_of(kind, c):
    return [list(f) for f in c] if kind == "polyhedron" else list(c)


def plain(c):
    return [[int(v) for v in f] if hasattr(f, "__len__") else int(f) for f in c]


def connectivity(W, mesh="mixed-2d"):
    np, pv, pvg = W.np, W.pv, W.pvg
    m = MESHES[mesh]
    P, _ = m.points(W)
    u = m.build(W, P)
    got = pvg.get_cell_connectivity(u)
    W.check("one entry per cell", len(got) == len(m.cells))
    for c, (kind, want) in zip(got, m.cells):
        W.check("nodes of the cell, in order", plain(c) == conn_of(kind, want))
    flat = [int(v) for v in pvg.get_cell_connectivity(u, flatten=True)]
    exp = []
    for kind, c in m.cells:
        body = [len(c)] + [v for f in c for v in (len(f), *f)] if kind == "polyhedron" else list(c)
        exp += [len(body), *body]
    W.check("flattened", flat == exp)
    r = pv.UnstructuredGrid(np.array(flat), u.celltypes, P)
    W.check("round trip", r.n_cells == u.n_cells and [plain(c) for c in pvg.get_cell_connectivity(r)] == [plain(c) for c in got])
    W.check("input kept", u.n_cells == len(m.cells))


def grid(W, kind="structured"):
    np, pv, pvg = W.np, W.pv, W.pvg
    d = [W.choice(f"d{a}", [1, 2, 3]) for a in range(3)]
    W.assume(max(d) > 1)
    nodes = [(i, j, k) for k in range(d[2]) for j in range(d[1]) for i in range(d[0])]
    if kind == "structured":
        s = W.arr("s", 3, 1 / 4, 4)
        g = structured(W, np.array([[s[a] * float(p[a]) for a in range(3)] for p in nodes]), tuple(d))
    elif kind == "image":
        g = pv.ImageData(dimensions=tuple(d))
    else:
        g = pv.RectilinearGrid(*[np.arange(v) * 1.5 for v in d])
    ax = [a for a in range(3) if d[a] > 1]
    W.check("dimension", int(pvg.get_dimension(g)) == len(ax))
    got = pvg.get_cell_connectivity(g)
    n = [max(1, v - 1) for v in d]
    W.check("cells", len(got) == n[0] * n[1] * n[2])
    for q, c in enumerate(got):
        ijk = (q % n[0], (q // n[0]) % n[1], q // (n[0] * n[1]))
        exp = {i + d[0] * (j + d[1] * k) for i, j, k in itertools.product(*[[ijk[a], ijk[a] + 1] if a in ax else [0] for a in range(3)])}
        W.check("corners of the cell", {int(v) for v in c} == exp and len(c) == len(exp))


def poly(W):
    np, pv, pvg = W.np, W.pv, W.pvg
    P = W.arr("P", (6, 3), -5, 5)
    kind = W.choice("kind", ["faces", "lines", "both", "verts"])
    kw = dict(faces=[3, 0, 1, 2, 4, 2, 1, 3, 4]) if kind in ("faces", "both") else {}
    if kind in ("lines", "both"):
        kw["lines"] = [2, 0, 5, 3, 3, 4, 5]
    if kind == "verts":
        kw["verts"] = [1, 0, 1, 3]
    g = pv.PolyData(P, **kw)
    lines, faces = [[0, 5], [3, 4, 5]], [[0, 1, 2], [2, 1, 3, 4]]
    exp = {"faces": faces, "lines": lines, "both": lines + faces, "verts": [[0], [3]]}[kind]
    W.check("nodes of the cells", [plain(c) for c in pvg.get_cell_connectivity(g)] == exp)
    W.check("dimension", int(pvg.get_dimension(g)) == {"faces": 2, "lines": 1, "both": 2, "verts": 0}[kind])


def vtk_dims():
    import vtk

    out = {}
    for t in range(0, 82):
        c = vtk.vtkGenericCell.InstantiateCell(t)
        if c is not None and t != 0:
            out[t] = c.GetCellDimension()
    return out


SIZE = 32


def dimension(W, n=2):
    """Cells of symbolic type: the table of the code against VTK's own cell classes."""
    np, pv, pvg = W.np, W.pv, W.pvg
    dims = vtk_dims()
    dims[0] = -1
    ts = W.arr("type", n, 0, max(dims), kind="i")
    P = W.arr("P", (SIZE, 3), -5, 5)
    for t in ts:
        W.assume(W.or_(*[t == k for k in dims if k != 42]))
    u = pv.UnstructuredGrid(np.array([v for i in range(n) for v in (27, *range(i, i + 27))]), ts, P)
    got = pvg.get_dimension(u)
    ds = []
    for t in ts:
        groups = {}
        for k, d in dims.items():
            groups.setdefault(d, []).append(k)
        e = -1
        for d, ks in groups.items():
            e = W.ite(W.or_(*[t == k for k in ks]), d, e)
        ds.append(e)
    W.check("largest dimension of the cells", got == W.max(*ds))
    W.check("input kept", u.n_cells == n)


def polyhedron(W):
    np, pv, pvg = W.np, W.pv, W.pvg
    P = W.arr("P", (SIZE, 3), -5, 5)
    b = [4, 3, 0, 1, 2, 3, 0, 1, 3, 3, 1, 2, 3, 3, 0, 2, 3]
    u = pv.UnstructuredGrid(np.array([2, 0, 1, len(b), *b, 3, 0, 1, 2]), np.array([3, 42, 5]), P)
    W.check("dimension", int(pvg.get_dimension(u)) == 3)


def refused(W):
    pvg = W.pvg
    W.check("refused", W.raises((TypeError, AttributeError), lambda: pvg.get_dimension(W.arr("P", (3, 3), 0, 1))))


def instances(tier):
    q = tier == "quick"
    out = [Instance(f"connectivity-{k}", connectivity, f"{len(m.cells)} cells", mesh=k, replays=4) for k, m in MESHES.items()]
    out += [Instance(f"grid-{k}", grid, "up to 3 nodes per axis", kind=k) for k in ("structured", "image", "rectilinear")]
    out += [Instance("poly", poly, "polygonal data"), Instance("refused", refused, "not a mesh")]
    out += [Instance(f"dimension-{n}", dimension, f"{n} cells of symbolic type", n=n, replays=1) for n in ((1, 2) if q else (1, 2, 3, 4, 5))]
    out.append(Instance("dimension-polyhedron", polyhedron, "polyhedron, line and triangle"))
    return out
