"""Volume between two unstructured surfaces: cell types, connectivity, data and hidden cells."""
from .lib import *

BOUNDS = "mixed triangle/quad/pixel/polygon surfaces of up to 3 cells and 9 points, arbitrary coordinates in [-8, 8]^3 (offsets up to 1e6 for the visibility of thin layers), up to 3 subdivisions (5 thorough), both argument orders of magnitude; layers with gaps down to 2e-7"

# 9 points on a 3x3 lattice (grid order)
LAT = [(float(i), float(j)) for j in range(3) for i in range(3)]
TYPES = {"triangle": 5, "polygon": 7, "pixel": 8, "quad": 9}
SURF = {
    "mixed": [("quad", [0, 1, 4, 3]), ("triangle", [1, 2, 4]), ("polygon", [3, 4, 7, 6])],
    "pixels": [("pixel", [0, 1, 3, 4]), ("pixel", [1, 2, 4, 5]), ("quad", [3, 4, 7, 6])],
    "turned": [("pixel", [4, 3, 1, 0]), ("pixel", [7, 4, 6, 3]), ("triangle", [4, 1, 2])],
    "triangles": [("triangle", [0, 1, 3]), ("triangle", [4, 3, 1]), ("triangle", [1, 2, 4])],
    "polygons": [("polygon", [0, 1, 4, 3]), ("polygon", [1, 2, 5, 8, 4]), ("triangle", [3, 4, 7])],
}
EXTRUDED = {"triangle": 13, "quad": 12, "pixel": 12, "polygon": 42}


def mk(W, name, P, poly=False):
    np, pv = W.np, W.pv
    cells = [x for t, c in SURF[name] for x in (len(c), *c)]
    if poly:
        return pv.PolyData(P, faces=cells)
    return pv.UnstructuredGrid(np.array(cells), np.array([TYPES[t] for t, _ in SURF[name]]), P)


def ring(t, c):
    return [c[0], c[1], c[3], c[2]] if t == "pixel" else list(c)


def prisms(W, name="mixed", nmax=2, poly=False):
    np, pv, pvg = W.np, W.pv, W.pvg
    N = 9
    # positions are concrete, elevations of both surfaces and a common shift are symbolic
    za, zb = W.arr("za", N, -8, 8), W.arr("zb", N, 9, 20)
    flip = W.choice("flip", [False, True])
    if flip:
        za, zb = zb, za
    sx, sy = W.real("sx", -3, 3), W.real("sy", -3, 3)
    A = np.array([[LAT[i][0], LAT[i][1], za[i]] for i in range(N)])
    B = np.array([[LAT[i][0] + sx, LAT[i][1] + sy, zb[i]] for i in range(N)])
    sa, sb = mk(W, name, A, poly), mk(W, name, B, poly)
    nc = len(SURF[name])
    pd, cd, cv = W.arr("pd", N, -5, 5), W.arr("cd", nc, 0, 9, kind="i"), W.arr("cv", (nc, 3), -5, 5)
    sa.point_data["pd"] = pd.copy()
    sa.cell_data["cd"] = cd.copy()
    sa.cell_data["cv"] = cv.copy()
    pw = W.arr("pw", (N, 2), -5, 5)
    sa.point_data["pw"] = pw.copy()
    res, method, perc = resolution(W, nmax=nmax)
    m = pvg.Volume(sa, sb, res, method)
    n = len(perc) - 1
    W.check("cells", m.n_cells == n * nc)
    W.check("points count", m.n_points == N * (n + 1))
    types = [TYPES[t] for t, _ in SURF[name]] if not poly else list(sa.cast_to_unstructured_grid().celltypes)
    names = [{5: "triangle", 7: "polygon", 8: "pixel", 9: "quad"}[int(t)] for t in types]
    W.check("cell types", [int(t) for t in m.celltypes] == [EXTRUDED[t] for t in names] * n)
    W.eq("points", m.points, np.array([lerp(A[i], B[i], t) for t in perc for i in range(N)]))
    W.eq("point data", m.point_data["pd"], np.array([pd[i] for _ in perc for i in range(N)]))
    W.eq("vector point data", m.point_data["pw"], np.array([pw[i] for _ in perc for i in range(N)]))
    W.eq("cell data", m.cell_data["cd"], np.array([cd[i] for _ in range(n) for i in range(nc)]))
    W.eq("cell vector data", m.cell_data["cv"], np.array([cv[i] for _ in range(n) for i in range(nc)]))
    conn = pvg.get_cell_connectivity(m)
    for k in range(n):
        for c, (t, ids) in enumerate(zip(names, [c for _, c in SURF[name]])):
            r = ring(t, ids)
            lo, hi = [i + k * N for i in r], [i + (k + 1) * N for i in r]
            got = conn[k * nc + c]
            if EXTRUDED[t] != 42:
                got = [int(i) for i in got]
                W.check("prism joins a base cell to its copy", got == lo + hi)
            else:
                faces = [sorted(int(i) for i in f) for f in got]
                want = [sorted(lo), sorted(hi)] + [sorted([lo[i], lo[(i + 1) % len(r)], hi[i], hi[(i + 1) % len(r)]]) for i in range(len(r))]
                W.check("polyhedron has the two ends and one side per edge", sorted(faces) == sorted(want))


def hidden(W, name="mixed", nmax=2, axis=2):
    """Hidden exactly when the surfaces meet at every node of the cell (or the base cell is hidden)."""
    np, pv, pvg = W.np, W.pv, W.pvg
    N = 9
    nc = len(SURF[name])
    off, size = W.choice("offset", [(0.0, 1.0), (1000.0, 1.0), (-1.0e6, 1.0), (0.0, 2.0**-12)])
    th = W.real("th", 2e-7, 1.0)
    sign = W.choice("sign", [1.0, -1.0])
    z = W.arr("z", N, -4, 4)
    used = sorted({i for _, c in SURF[name] for i in c})
    # independent touching flags on a few nodes, the others follow a common flag
    free = used[:3]
    rest = W.flag("touch_rest")
    touch = {i: rest for i in range(N)}
    for i in free:
        touch[i] = W.flag(f"touch{i}")
    # the surfaces may cross each other
    side = [-1.0 if i % 2 else 1.0 for i in range(N)] if W.flag("crossing") else [1.0] * N
    turn = lambda p: [p[(j - axis - 1) % 3] for j in range(3)]
    A = np.array([turn([LAT[i][0] * size, LAT[i][1] * size, z[i] + off]) for i in range(N)])
    B = np.array([turn([LAT[i][0] * size, LAT[i][1] * size, z[i] + off + (0.0 if touch[i] else sign * side[i] * th)]) for i in range(N)])
    sa, sb = mk(W, name, A), mk(W, name, B)
    pre = W.choice("pre", [None, 0, nc - 1])
    if pre is not None:
        sa.cell_data["vtkGhostType"] = np.array([32 if c == pre else 0 for c in range(nc)], dtype=np.uint8)
    n = W.choice("n", list(range(1, nmax + 1)))
    m = pvg.Volume(sa, sb, n)
    g = ghost(W, m)
    for k in range(n):
        for c, (_, ids) in enumerate(SURF[name]):
            flat = all(touch[i] for i in ids) or pre == c
            W.check("hidden" if flat else "visible", g[k * nc + c] == (32 if flat else 0))


def refused(W):
    np, pv, pvg = W.np, W.pv, W.pvg
    bad = W.choice("bad", ["points", "types", "order", "celltype", "one celltype", "kind"])
    P = np.column_stack((np.array(LAT), W.arr("z", 9, -4, 4)))
    s = mk(W, "mixed", P)
    if bad == "points":
        o = pv.UnstructuredGrid(np.array([3, 0, 1, 2]), np.array([5]), P[:3])
    elif bad == "types":
        o = mk(W, "triangles", P)
    elif bad == "order":
        o = pv.UnstructuredGrid(np.array([3, 1, 2, 4, 4, 0, 1, 4, 3, 4, 3, 4, 7, 6]), np.array([5, 9, 7]), P)
    elif bad == "one celltype":
        s = o = pv.UnstructuredGrid(np.array([4, 0, 1, 4, 3, 2, 2, 5, 3, 1, 2, 4]), np.array([9, 3, 5]), P)
    elif bad == "celltype":
        s = o = pv.UnstructuredGrid(np.array([4, 0, 1, 3, 4]), np.array([10]), P)
    else:
        o = structured(W, P, (3, 3, 1))
    W.check("inconsistent surfaces are refused", W.raises(ValueError, pvg.Volume, s, o, 1))


def instances(tier):
    q = tier == "quick"
    n = 2 if q else 5
    out = [Instance(f"prisms-{s}", prisms, f"<= {n} subdivisions", name=s, nmax=n) for s in SURF]
    out.append(Instance("prisms-polydata", prisms, f"polygonal data input, <= {n} subdivisions", name="polygons", poly=True, nmax=n))
    out += [Instance(f"hidden-{s}", hidden, "surfaces meeting at subsets of nodes", name=s, nmax=1 if q else 3, replays=12) for s in ("mixed", "pixels", "polygons")]
    out += [Instance(f"hidden-axis{a}", hidden, f"surfaces normal to axis {a} meeting at subsets of nodes", name=s, axis=a, nmax=1 if q else 3, replays=12) for a, s in ((0, "polygons"), (1, "mixed"))]
    out.append(Instance("refused", refused, "invalid arguments"))
    return out
