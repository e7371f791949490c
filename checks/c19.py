"""Extraction of cells keeps hidden cells, data and the input mesh."""
from .lib import *
from .meshes import *

BOUNDS = "meshes of 2-6 cells of mixed types and dimensions with symbolic coordinates, scalar/vector cell and point data and hidden flags; every subset of cells (masks and index lists, inverted or not)"

DIM = dict(empty=-1, vertex=0, line=1, polyline=1, triangle=2, polygon=2, pixel=2, quad=2, tetra=3, voxel=3, hexa=3, wedge=3, pyramid=3, polyhedron=3)

ALL = M([("vertex", (0,)), ("line", (1, 2)), ("empty", ()), ("triangle", (1, 2, 4)), ("hexa", (0, 1, 4, 3, 6, 7, 10, 9)), ("polyline", (2, 5, 8)), ("tetra", (1, 2, 4, 8))], G3, 3)


def nodes_of(kind, c):
    return sorted({v for f in c for v in f}) if kind == "polyhedron" else list(c)


def data(W, u, n, npts, ghost=True):
    np = W.np
    D = dict(s=W.arr("cs", n, 0, 99, kind="i"), v=W.arr("cv", (n, 3), -5, 5), p=W.arr("pd", npts, -5, 5))
    u.cell_data["s"], u.cell_data["v"], u.point_data["p"] = D["s"].copy(), D["v"].copy(), D["p"].copy()
    if ghost:
        g = [W.flag(f"g{i}") if i < 3 else False for i in range(n)]
        D["g"] = [(1 if i == 1 else 32) if x else 0 for i, x in enumerate(g)]
        u.cell_data["vtkGhostType"] = np.array(D["g"], dtype=np.uint8)
    return D


def same(W, r, m, P, D, ids, empty_ok=True):
    """r holds cells `ids` of m, in order, with their nodes and data."""
    np = W.np
    W.check("number of cells", r.n_cells == len(ids))
    if r.n_cells != len(ids) or not ids:
        return
    W.check("cell types", [int(t) for t in r.celltypes] == [VTK[m.cells[i][0]] for i in ids])
    W.eq("cell data", r.cell_data["s"], np.array([D["s"][i] for i in ids]))
    W.eq("vector cell data", r.cell_data["v"], np.array([list(D["v"][i]) for i in ids]))
    if "g" in D:
        W.check("hidden flags", "vtkGhostType" in r.cell_data and [int(W.val(v)) for v in r.cell_data["vtkGhostType"]] == [D["g"][i] for i in ids])
    conn, off = [int(v) for v in r.cell_connectivity], [int(v) for v in r.offset]
    for q, i in enumerate(ids):
        nd = nodes_of(*m.cells[i])
        got = conn[off[q] : off[q + 1]]
        if m.cells[i][0] == "polyhedron":
            W.check("nodes of a polyhedron", len(got) == len(nd))
            continue
        W.check("size", len(got) == len(nd))
        if nd:
            W.eq("nodes", np.array([list(r.points[j]) for j in got]), np.array([list(P[j]) for j in nd]))
            W.eq("point data", np.array([r.point_data["p"][j] for j in got]), np.array([D["p"][j] for j in nd]))


def cells(W, mesh="mixed-2d", form="mask"):
    np, pv, pvg = W.np, W.pv, W.pvg
    m = ALL if mesh == "all" else MESHES[mesh]
    P, _ = m.points(W)
    n = len(m.cells)
    u = m.build(W, P)
    D = data(W, u, n, len(m.ref))
    keys = set(u.cell_data.keys())
    pick = [W.flag(f"k{i}") if i < 4 else i % 2 == 0 for i in range(n)]
    if form == "single":
        W.assume(any(pick))
    invert = W.flag("invert") if form != "single" else False
    ind = [i for i in range(n) if pick[i]]
    if form == "single":
        ids = [ind[0]]
        r = pvg.extract_cells(u, ind[0])
    else:
        arg = {"mask": np.array(pick), "list": ind, "array": np.array(ind)}[form]
        r = pvg.extract_cells(u, arg, invert=invert)
        ids = [i for i in range(n) if pick[i] != invert]
    same(W, r, m, P, D, ids)
    if ids:
        W.check("original cells", [int(v) for v in r.cell_data["vtkOriginalCellIds"]] == ids)
    W.check("input kept", set(u.cell_data.keys()) - {"vtkOriginalCellIds"} == keys and u.n_cells == n)
    W.check("hidden flags of the input kept", [int(W.val(v)) for v in u.cell_data["vtkGhostType"]] == D["g"])
    W.eq("data of the input kept", u.cell_data["s"], D["s"])


def dimension(W, mesh="all"):
    np, pv, pvg = W.np, W.pv, W.pvg
    m = ALL if mesh == "all" else MESHES[mesh]
    P, _ = m.points(W)
    n = len(m.cells)
    u = m.build(W, P)
    D = data(W, u, n, len(m.ref), ghost=W.flag("ghost"))
    nd = W.choice("ndim", [None, 0, 1, 2, 3])
    method = W.choice("method", ["upper", "lower"])
    keep = W.flag("keep")
    dims = [DIM[k] for k, _ in m.cells]
    d = max(dims) if nd is None else nd
    ids = [i for i in range(n) if (dims[i] >= d if method == "upper" else dims[i] <= d) or (keep and dims[i] == -1)]
    r = pvg.extract_cells_by_dimension(u, nd, method=method, keep_empty_cells=keep)
    W.check("unstructured", isinstance(r, pv.UnstructuredGrid))
    same(W, r, m, P, D, ids)
    W.check("input kept", u.n_cells == n)


def refused(W):
    pvg = W.pvg
    m = ALL
    P, _ = m.points(W)
    u = m.build(W, P)
    W.check("refused", W.raises(ValueError, lambda: pvg.extract_cells_by_dimension(u, 2, method="other")))


def raised(W):
    """The hidden flags come back even when the extraction fails."""
    np, pvg = W.np, W.pvg
    m = MESHES["mixed-2d"]
    P, _ = m.points(W)
    u = m.build(W, P)
    D = data(W, u, len(m.cells), len(m.ref))
    W.raises(Exception, lambda: pvg.extract_cells(u, "abc"))
    W.check("hidden flags kept", "vtkGhostType" in u.cell_data and [int(W.val(v)) for v in u.cell_data["vtkGhostType"]] == D["g"])


def instances(tier):
    q = tier == "quick"
    out = [Instance(f"cells-{k}-{f}", cells, "up to 4 free cells", mesh=k, form=f, replays=8) for k, f in [("mixed-2d", "mask"), ("all", "array"), ("mixed-3d", "list"), ("empty-2d", "mask"), ("apart-3d", "single")]]
    if not q:
        out += [Instance(f"cells-{k}-{f}", cells, "up to 4 free cells", mesh=k, form=f, replays=8) for k in ("polyhedra", "lines-quad", "empty-3d", "wedges") for f in ("mask", "array", "single")]
    out += [Instance(f"dimension-{k}", dimension, "mixed dimensions", mesh=k, replays=10) for k in ("all", "lines-quad", "empty-3d")]
    out += [Instance("refused", refused, "unknown method"), Instance("raised", raised, "failing extraction")]
    return out
