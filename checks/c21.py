"""Cell centres."""
import numpy as rnp

from .lib import *
from .meshes import *

BOUNDS = "meshes of 2-6 cells with symbolic node coordinates (or a symbolic affine image of a reference for polyhedra), empty and hidden cells, structured and polygonal data; the three centre methods for polyhedra (VTK 9.4); concave cells"
ASSUMPTIONS = ["centres of polygons, polylines and pyramids come from VTK and are not compared"]

MEAN = ("vertex", "line", "triangle", "quad", "pixel", "tetra", "hexa", "voxel", "wedge")

PENTA = M([("polyhedron", prism((0, 1, 2, 3, 4), (5, 6, 7, 8, 9))), ("polyhedron", [(5, 6, 10), (6, 7, 10), (7, 8, 10), (8, 9, 10), (9, 5, 10), (5, 6, 7, 8, 9)])],
          [(0, 0, 0), (3, 0, 0), (4, 2, 0), (2, 4, 0), (0, 2, 0), (0, 0, 2), (3, 0, 2), (4, 2, 2), (2, 4, 2), (0, 2, 2), (1, 1, 5)], 3)
MIX = M([("tetra", (1, 2, 4, 8)), ("polyhedron", prism((0, 1, 4, 3), (6, 7, 10, 9))), ("empty", ()), ("hexa", (6, 7, 10, 9, 12, 13, 16, 15)), ("polyhedron", [(1, 2, 5, 4), (1, 2, 8), (2, 5, 8), (5, 4, 8), (4, 1, 8)])], G3, 3)
# L-shaped and dart-shaped prisms, whose first node does not see every face
def out_prism(base, top):
    n = len(base)
    return [tuple(base[::-1]), tuple(top)] + [(base[i], base[(i + 1) % n], top[(i + 1) % n], top[i]) for i in range(n)]


CONCAVE = M([("polyhedron", out_prism((0, 1, 2, 3, 4, 5), (6, 7, 8, 9, 10, 11))), ("polyhedron", out_prism((12, 13, 14, 15), (16, 17, 18, 19)))],
            [(x, y, z) for z in (0, 2) for x, y in [(0, 0), (3, 0), (3, 1), (1, 1), (1, 4), (0, 4)]] + [(x, y, z) for z in (3, 4) for x, y in [(4, 0), (5, 1), (4, 4), (0, 0)]], 3)
CONCAVE.oriented = True
POLY = {"penta": PENTA, "concave": CONCAVE, "mix": MIX, "polyhedra": MESHES["polyhedra"], "mixed-3d": M([c for c in MESHES["mixed-3d"].cells if c[0] not in ("pyramid", "voxel")], G3, 3)}


def simple(W, mesh="mixed-2d"):
    """Nodes anywhere: linear cells have their centre at the mean of their nodes."""
    np, pv, pvg = W.np, W.pv, W.pvg
    m = MESHES[mesh]
    cells = [(k, c) for k, c in m.cells if k in MEAN or k == "empty"]
    m = M(cells, m.ref, m.dim)
    if any(k in ("pixel", "voxel") for k, _ in cells):
        P, _ = m.points(W)
    else:
        P = W.arr("P", (len(m.ref), 3), -9, 9)
    u = m.build(W, P)
    n = len(cells)
    g = None
    if W.flag("ghost"):
        h = W.int("h", 0, n - 1)
        g = np.array([32 if int(W.val(h)) == i else 0 for i in range(n)], dtype=np.uint8)
        u.cell_data["vtkGhostType"] = g.copy()
    u.cell_data["d"] = W.arr("d", n, 0, 9)
    keys = set(u.cell_data.keys())
    C = pvg.get_cell_centers(u)
    W.check("one centre per cell", tuple(C.shape) == (n, 3))
    for i, (k, c) in enumerate(cells):
        if k == "empty":
            W.check("no centre for an empty cell", all(float(W.val(v)) != float(W.val(v)) for v in C[i]))
        else:
            W.eq("mean of the nodes", C[i], np.array([sum(P[j][a] for j in c) * (1.0 / len(c)) for a in range(3)]))
    W.check("data of the input kept", set(u.cell_data.keys()) == keys)
    if g is not None:
        W.check("hidden flags kept", [int(W.val(v)) for v in u.cell_data["vtkGhostType"]] == [int(v) for v in g])
    W.eq("points of the input kept", u.points, P)


def polyhedra(W, mesh="penta", method=None, move=True, winding=False):
    np, pv, pvg = W.np, W.pv, W.pvg
    m = POLY[mesh]
    ref = m.ref
    if method == "tetra":
        s = [W.real(f"s{a}", 1 / 4, 4) if a < 2 or move else 1.5 for a in range(3)]
        o = [W.real(f"o{a}", -9, 9) if move else [4.0, -3.0, 2.0][a] for a in range(3)]
        P = np.array([[o[a] + s[a] * float(r[a]) for a in range(3)] for r in ref])
    else:
        P = W.arr("P", (len(ref), 3), -9, 9)
    cells = m.cells
    if method == "tetra":
        # consistently oriented faces are part of what the method needs
        if not hasattr(m, "oriented"):
            cells = [(k, outward(c, ref)) if k == "polyhedron" else (k, c) for k, c in cells]
        if winding:
            cells = [(k, [tuple(f[::-1]) for f in c]) if k == "polyhedron" else (k, c) for k, c in cells]
    u = M(cells, ref, 3).build(W, P)
    C = pvg.get_cell_centers(u, polyhedron_method=method)
    for i, (k, c) in enumerate(cells):
        if k == "empty":
            W.check("no centre for an empty cell", all(float(W.val(v)) != float(W.val(v)) for v in C[i]))
        elif k in MEAN:
            W.eq("mean of the nodes", C[i], np.array([sum(P[j][a] for j in c) * (1.0 / len(c)) for a in range(3)]))
        elif k == "polyhedron":
            nd = sorted({v for f in c for v in f})
            if method == "geometric":
                W.eq("mean of the nodes", C[i], np.array([sum(P[j][a] for j in nd) * (1.0 / len(nd)) for a in range(3)]))
            elif method == "tetra":
                ctr = centroid(c, ref)
                W.eq("centroid of the volume", C[i], np.array([o[a] + s[a] * float(ctr[a]) for a in range(3)]), tol=1e-5)
            else:
                W.eq("centre of the bounding box", C[i], np.array([(W.min(*[P[j][a] for j in nd]) + W.max(*[P[j][a] for j in nd])) * 0.5 for a in range(3)]))


def outward(faces, ref):
    ctr = ref[sorted({v for f in faces for v in f})].mean(axis=0)
    out = []
    for f in faces:
        p = ref[list(f)]
        nrm = sum(rnp.cross(a - p[0], b - p[0]) for a, b in zip(p[1:-1], p[2:]))
        out.append(tuple(f) if nrm @ (p.mean(axis=0) - ctr) > 0 else tuple(f[::-1]))
    return out


def centroid(faces, ref):
    """Exact centroid of a polyhedron with outward faces: signed cones over the faces from a fixed point."""
    inner = ref[sorted({v for f in faces for v in f})].mean(axis=0)
    V, S = 0.0, rnp.zeros(3)
    for f in faces:
        p = ref[list(f)]
        for a, b in zip(p[1:-1], p[2:]):
            v = rnp.dot(rnp.cross(p[0] - inner, a - inner), b - inner) / 6.0
            V += v
            S += v * (p[0] + a + b + inner) / 4.0
    return S / V


def grid(W, kind="structured"):
    np, pv, pvg = W.np, W.pv, W.pvg
    if kind == "polydata":
        P = W.arr("P", (6, 3), -9, 9)
        faces = [[0, 1, 2], [2, 1, 3], [3, 4, 5, 2]]
        g = pv.PolyData(P, faces=[v for f in faces for v in (len(f), *f)])
        want = [[sum(P[j][a] for j in f) * (1.0 / len(f)) for a in range(3)] for f in faces]
    else:
        d = W.choice("d", [(3, 2, 1), (1, 3, 2), (2, 1, 3), (2, 3, 2)])
        n = d[0] * d[1] * d[2]
        P = W.arr("P", (n, 3), -9, 9)
        g = structured(W, P, d)
        k = [max(1, v - 1) for v in d]
        want = []
        for c in range(k[0] * k[1] * k[2]):
            ijk = (c % k[0], (c // k[0]) % k[1], c // (k[0] * k[1]))
            cor = [sidx(d, *q) for q in itertools.product(*[[ijk[a], ijk[a] + 1] if d[a] > 1 else [0] for a in range(3)])]
            want.append([sum(P[j][a] for j in cor) * (1.0 / len(cor)) for a in range(3)])
        if W.flag("ghost"):
            h = W.choice("h", list(range(len(want))))
            gt = np.zeros(len(want), dtype=np.uint8)
            gt[h] = 32
            g.cell_data["vtkGhostType"] = gt
            C = pvg.get_cell_centers(g)
            W.eq("centres, hidden cells included", C, np.array(want))
            W.check("hidden flags kept", "vtkGhostType" in g.cell_data and [int(W.val(v)) for v in g.cell_data["vtkGhostType"]] == [32 if i == h else 0 for i in range(len(want))])
            return
    W.eq("mean of the nodes", pvg.get_cell_centers(g), np.array(want))


def instances(tier):
    q = tier == "quick"
    out = [Instance(f"simple-{k}", simple, f"{len(MESHES[k].cells)} cells", mesh=k, replays=6) for k in ("mixed-2d", "pixels-2d", "empty-2d", "lines-quad", "hexas", "voxels", "wedges", "tetras", "mixed-3d", "empty-3d")]
    for k in ("penta", "concave", "mix", "polyhedra", "mixed-3d"):
        for meth in (None, "box", "geometric"):
            out.append(Instance(f"{k}-{meth}", polyhedra, "nodes anywhere", mesh=k, method=meth, replays=6))
        out.append(Instance(f"{k}-tetra", polyhedra, "affine image of a reference", mesh=k, method="tetra", move=not q, replays=6))
        out.append(Instance(f"{k}-tetra-inward", polyhedra, "affine image of a reference, faces inward", mesh=k, method="tetra", move=not q, winding=True, replays=6))
    out += [Instance("grid-structured", grid, "up to 3 nodes per axis", kind="structured"), Instance("grid-polydata", grid, "3 faces", kind="polydata")]
    return out
