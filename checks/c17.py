"""Facets of the cells of a mesh."""
from .lib import *
from .meshes import *

BOUNDS = "meshes of 2-6 cells of every supported type (lines, polylines, triangles, quads, pixels, polygons, tetrahedra, pyramids, wedges, hexahedra, voxels, polyhedra), mixed, with empty/hidden cells, facets shared by more than two cells or by none; symbolic position and size, possibly flat along one axis; tiny cells, folded polygons and thin cells"


def run(W, mesh="mixed-2d", flat=None, hidden=None, unit=1.0):
    np, pv, pvg = W.np, W.pv, W.pvg
    m = MESHES[mesh]
    P, ref = m.points(W, flat, unit=unit)
    remove = W.flag("remove")
    u = m.build(W, P)
    hide = set()
    if hidden is not None:
        h = W.choice("hidden", hidden)
        g = np.zeros(len(m.cells), dtype=np.uint8)
        g[h] = W.choice("flag", [32, 33])
        u.cell_data["vtkGhostType"] = g
        if remove:
            hide = {h}
    keep = list(u.cell_data.keys())
    r = pvg.extract_cell_geometry(u, remove_ghost_cells=remove)
    W.check("input kept", list(u.cell_data.keys()) == keep and u.n_cells == len(m.cells))
    want = expected(m, ref, hide, drop=remove)
    W.check("facets", r.n_cells == len(want))
    W.eq("points", r.points, P)
    d = m.dim
    ids = r.cell_data["vtkOriginalCellIds"]
    conn = [int(v) for v in (r.lines if d < 3 else r.faces)]
    k, got = 0, []
    while k < len(conn):
        got.append(conn[k + 1 : k + 1 + conn[k]])
        k += conn[k] + 1
    W.check("cells of each facet", ids.shape[0] == len(got) and ids.shape[1] >= 2)
    for i, f in enumerate(got):
        e = [e for e in want if set(e[0]) == set(f)]
        W.check("a facet of the mesh", len(e) == 1 and same_cycle(e[0][0], f))
        if len(e) == 1:
            c = [int(v) for v in ids[i]]
            W.check("cells holding the facet", sorted(v for v in c if v != -1) == e[0][1] and c[len(e[0][1]) :] == [-1] * (len(c) - len(e[0][1])))
    W.check("each facet once", len({frozenset(f) for f in got}) == len(got))


def structured(W, dims=(3, 3, 1), ghost=None):
    """Structured grids, hidden cells included."""
    np, pv, pvg = W.np, W.pv, W.pvg
    from .lib import structured as mk

    s = W.arr("s", 3, 1 / 4, 4)
    ref = [(i, j, k) for k in range(dims[2]) for j in range(dims[1]) for i in range(dims[0])]
    P = np.array([[s[a] * float(r[a]) for a in range(3)] for r in ref])
    g = mk(W, P, dims)
    n = [max(1, d - 1) for d in dims]
    node = lambda *q: q[0] + dims[0] * (q[1] + dims[1] * q[2])
    cells = []
    for c in itertools.product(*[range(v) for v in n[::-1]]):
        c = c[::-1]
        ax = [a for a in range(3) if dims[a] > 1]
        corner = lambda bits: node(*[c[a] + (bits[ax.index(a)] if a in ax else 0) for a in range(3)])
        if len(ax) == 2:
            cells.append(("quad", tuple(corner(b) for b in [(0, 0), (1, 0), (1, 1), (0, 1)])))
        else:
            cells.append(("hexa", tuple(corner(b) for b in [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)])))
    m = M(cells, ref, len([d for d in dims if d > 1]))
    remove, h = W.flag("remove"), None
    if ghost:
        h = W.choice("hidden", list(range(len(cells))))
        gt = np.zeros(len(cells), dtype=np.uint8)
        gt[h] = 32
        g.cell_data["vtkGhostType"] = gt
    r = pvg.extract_cell_geometry(g, remove_ghost_cells=remove)
    want = expected(m, m.ref, {h} if (remove and h is not None) else (), drop=remove)
    W.check("facets", r.n_cells == len(want))
    conn = [int(v) for v in (r.lines if m.dim == 2 else r.faces)]
    k, i = 0, 0
    while k < len(conn):
        f = conn[k + 1 : k + 1 + conn[k]]
        e = [e for e in want if set(e[0]) == set(f)]
        W.check("a facet of the mesh", len(e) == 1 and same_cycle(e[0][0], f))
        if len(e) == 1:
            W.check("cells holding the facet", sorted(int(v) for v in r.cell_data["vtkOriginalCellIds"][i] if int(v) != -1) == e[0][1])
        k, i = k + conn[k] + 1, i + 1
    W.eq("points", r.points, P)


def unsupported(W):
    np, pv, pvg = W.np, W.pv, W.pvg
    P = W.arr("P", (6, 3), -5, 5)
    m = pv.UnstructuredGrid(np.array([6, 0, 1, 2, 3, 4, 5]), np.array([22]), P)
    W.check("refused", W.raises(NotImplementedError, lambda: pvg.extract_cell_geometry(m)))


def instances(tier):
    q = tier == "quick"
    out = [Instance(k, run, f"{len(m.cells)} cells", mesh=k, flat=(None if k.startswith("apart") else 1 if m.dim < 3 else 2), replays=8) for k, m in MESHES.items()]
    for k in ["mixed-2d", "hexas", "mixed-3d", "polyhedra", "wedges", "non-manifold-2d"]:
        out.append(Instance(f"{k}-hidden", run, "one hidden cell", mesh=k, hidden=list(range(len(MESHES[k].cells))), flat=None if q else 0, replays=8))
    for d in [(3, 3, 1), (1, 3, 3), (3, 1, 2), (3, 2, 3)]:
        out.append(Instance("structured-" + "x".join(map(str, d)), structured, f"grid {d}", dims=d, ghost=True, replays=8))
    for k in ["mixed-2d", "mixed-3d"]:
        out.append(Instance(f"{k}-tiny", run, "cells of size 1e-5", mesh=k, unit=2.0**-17, replays=4))
    out.append(Instance("structured-plain", structured, "grid (2, 2, 2)", dims=(2, 2, 2)))
    out.append(Instance("unsupported", unsupported, "quadratic triangle"))
    return out
