"""Quadratic meshes."""
from .lib import *
from .meshes import *

BOUNDS = "meshes of 1-8 triangles and quads in any order (sharing nodes or not, unused nodes), all node coordinates symbolic in [-50, 50]"

CASES = {
    "triangle": M([("triangle", (2, 0, 1))], XY[:4], 2),
    "quad": M([("quad", (3, 0, 1, 2))], XY[:4], 2),
    "mixed": M([("triangle", (1, 0, 2)), ("quad", (4, 3, 0, 1)), ("triangle", (5, 2, 4))], XY[:6], 2),
    "quads": M([("quad", (0, 1, 4, 3)), ("quad", (1, 2, 5, 4)), ("triangle", (3, 4, 6)), ("quad", (4, 5, 8, 7))], XY, 2),
    "many": M([("quad", (0, 1, 4, 3)), ("triangle", (1, 2, 4)), ("triangle", (5, 4, 2)), ("triangle", (4, 6, 3)), ("triangle", (4, 7, 6)), ("quad", (7, 4, 5, 8)), ("triangle", (0, 2, 8)), ("triangle", (6, 0, 8))], XY, 2),
}


def run(W, mesh="mixed"):
    np, pv, pvg = W.np, W.pv, W.pvg
    m = CASES[mesh]
    n = len(m.ref)
    P = W.arr("p", (n, 3), -50, 50)
    u = m.build(W, P)
    r = pvg.quadraticize(u)
    W.check("cells", r.n_cells == len(m.cells))
    W.check("quadratic cells", [int(t) for t in r.celltypes] == [{"triangle": 22, "quad": 23}[k] for k, _ in m.cells])
    conn, off = [int(v) for v in r.cell_connectivity], [int(v) for v in r.offset]
    for i, (kind, c) in enumerate(m.cells):
        got = conn[off[i] : off[i + 1]]
        k = len(c)
        W.check("nodes of each cell", len(got) == 2 * k)
        W.check("corners kept", got[:k] == list(c))
        W.eq("corners in place", np.array([list(r.points[j]) for j in got[:k]]), np.array([list(P[j]) for j in c]))
        W.eq("midside nodes at the middle of each edge", np.array([list(r.points[j]) for j in got[k:]]), np.array([[(P[a][q] + P[b][q]) * 0.5 for q in range(3)] for a, b in zip(c, c[1:] + c[:1])]))
    W.eq("nodes of the input first", r.points[:n], P)
    W.eq("input kept", u.points, P)
    W.check("cells of the input kept", u.n_cells == len(m.cells) and [int(t) for t in u.celltypes] == [VTK[k] for k, _ in m.cells])


def refused(W):
    name = W.choice("mesh", ["pixels-2d", "lines", "hexas", "mixed-2d", "wedges", "polyhedra", "empty-2d"])
    m = MESHES[name]
    P, _ = m.points(W)
    u = m.build(W, P)
    W.check("refused", W.raises(NotImplementedError, lambda: W.pvg.quadraticize(u)))


def instances(tier):
    return [Instance(k, run, f"{len(v.cells)} cells", mesh=k) for k, v in CASES.items()] + [Instance("refused", refused, "other cell types")]
