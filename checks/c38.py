"""Merging tolerance of the generators."""
from symx.sympv import near_merging

from .lib import *

BOUNDS = "merges of two or three meshes (quadrilaterals, hexahedra), stacks and extrusions of an unstructured base made of two cells with nodes of their own, the distance between the nodes of neighbouring cells anywhere from 0 to the tolerance, or from the tolerance times the diagonal to 1/2; tolerances 1e-8 (default), 1e-3 and 1/20 (and 1e-6, 1e-2 thorough); layers and steps as thin as twice the tolerance times the diagonal"
ASSUMPTIONS = ["pyvista passes the tolerance on to VTK as a fraction of the diagonal of the mesh: between the tolerance and the tolerance times the diagonal nothing is claimed"]


def quads(W, spans, z=0.0, depth=0):
    """Cells next to each other along x, each with its own nodes; hexahedra if depth."""
    np, pv = W.np, W.pv
    P, cells = [], []
    for a, b in spans:
        k = len(P)
        for h in [z] + ([z + depth] if depth else []):
            P += [[a, 0.0, h], [b, 0.0, h], [b, 1.0, h], [a, 1.0, h]]
        cells += [8 if depth else 4, *range(k, len(P))]
    return pv.UnstructuredGrid(np.array(cells), np.array([12 if depth else 9] * len(spans)), np.array(P))


def gap(W, tol, diag2):
    """(distance between neighbours, whether it is within the tolerance)."""
    t = tol or 1e-8
    near = W.flag("near")
    if near:
        return W.real("g", 0, t), True
    g = W.real("g", t, 0.5)
    W.assume(g * g >= 1.01 * t * t * diag2)
    return g, False


def close(W, label, m, want, t):
    """Each cell given is there (in any order), its nodes within t of those given."""
    conn, off = [int(v) for v in m.cell_connectivity], [int(v) for v in m.offset]
    W.check("cells", m.n_cells == len(want))
    cells = [[m.points[i] for i in conn[off[c] : off[c + 1]]] for c in range(m.n_cells)]
    for w in want:
        W.check(label, W.or_(*[W.and_(*[W.or_(*[W.and_(*[W.abs(p[a] - q[a]) <= t for a in range(3)]) for p in c]) for q in w]) for c in cells if len(c) == len(w)]))


def merged(W, tol=None, depth=0, n=2):
    near_merging(W)
    pvg = W.pvg
    D2 = (n + 0.5 * (n - 1)) ** 2 + 1.0 + depth**2
    g, near = gap(W, tol, D2)
    spans = [(i * (1.0 + g), 1.0 + i * (1.0 + g)) for i in range(n)]
    mm = pvg.MeshMerge()
    for s in spans:
        mm.add(quads(W, [s], depth=depth))
    m = mm.generate_mesh(tol) if tol else mm.generate_mesh()
    k = 2 if depth else 1
    W.check("nodes", m.n_points == k * (2 * n + 2 if near else 4 * n))
    P = [[[a, 0.0, 0.0], [b, 0.0, 0.0], [b, 1.0, 0.0], [a, 1.0, 0.0]] + ([[a, 0.0, depth], [b, 0.0, depth], [b, 1.0, depth], [a, 1.0, depth]] if depth else []) for a, b in spans]
    close(W, "nodes where they were given", m, P, g + 1e-12 if near else 1e-12)


def layered(W, gen="stack", tol=None, thin=False):
    near_merging(W)
    np, pvg = W.np, W.pvg
    t = tol or 1e-8
    D2 = 2.5**2 + 1.0 + (9.0 if not thin else 1.01)
    D = D2**0.5
    if thin:
        # coincident nodes and a layer (much) thinner than the others
        g, near = 0.0, True
        d = W.real("d", 2 * t * D, 1 / 2)
    else:
        g, near = gap(W, tol, D2)
        d = 1.0
    base = quads(W, [(0.0, 1.0), (1.0 + g, 2.0 + g)])
    if gen == "stack":
        s = pvg.MeshStack3D(base).add(0.0).add(d).add(0.5)
    else:
        s = pvg.MeshExtrude(base).add([0.0, 0.0, d]).add([0.0, 0.0, 0.5])
    m = s.generate_mesh(tol) if tol else s.generate_mesh()
    W.check("nodes", m.n_points == 3 * (6 if near else 8))
    want = []
    for z0, z1 in ((0.0, d), (d, d + 0.5)):
        for a, b in ((0.0, 1.0), (1.0 + g, 2.0 + g)):
            want.append([[a, 0.0, z0], [b, 0.0, z0], [b, 1.0, z0], [a, 1.0, z0], [a, 0.0, z1], [b, 0.0, z1], [b, 1.0, z1], [a, 1.0, z1]])
    close(W, "nodes where they were given", m, want, g + 1e-12 if near else 1e-12)


def instances(tier):
    q = tier == "quick"
    out = []
    for t in [None, 1e-3, 0.05] + ([] if q else [1e-6, 1e-2]):
        n = t or "default"
        out.append(Instance(f"merge-quads-{n}", merged, "2 cells", tol=t))
        out.append(Instance(f"merge-hexahedra-{n}", merged, "2 cells", tol=t, depth=1.0))
        for g in ("stack", "extrude"):
            out.append(Instance(f"{g}-{n}", layered, "2 x 2 cells", gen=g, tol=t))
            out.append(Instance(f"{g}-thin-{n}", layered, "2 x 2 cells", gen=g, tol=t, thin=True))
        if t != 0.05:
            out.append(Instance(f"merge-three-{n}", merged, "3 cells", tol=t, n=3))
    return out
