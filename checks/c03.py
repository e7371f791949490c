"""Volume between two structured surfaces: geometry, layout, data and hidden cells."""
from .lib import *

BOUNDS = "surfaces of 3x2, 2x2 and (hidden cells) 3x3 nodes with arbitrary coordinates in [-8, 8]^3 normal to any axis, up to 3 subdivisions (5 thorough), scalar and vector data; layers with gaps down to 2e-7 and collapsed ones"


def dims_of(axis, n1, n2, n):
    d = [n1, n2]
    d.insert(axis, n)
    return tuple(d)


def index_of(axis, i, j, k):
    t = [i, j]
    t.insert(axis, k)
    return tuple(t)


def generic(W, axis=2, n1=3, n2=2, nmax=2, vector=True):
    np, pv, pvg = W.np, W.pv, W.pvg
    sd = dims_of(axis, n1, n2, 1)
    N, NC = n1 * n2, (n1 - 1) * (n2 - 1)
    A, B = W.arr("A", (N, 3), -8, 8), W.arr("B", (N, 3), -8, 8)
    sa, sb = structured(W, A, sd), structured(W, B, sd)
    pd, cd, cv = W.arr("pd", N, -5, 5), W.arr("cd", NC, 0, 9, kind="i"), W.arr("cv", (NC, 3), -5, 5)
    pw = W.arr("pw", (N, 2), -5, 5)
    sa.point_data["pd"] = pd.copy()
    sa.point_data["pw"] = pw.copy()
    sa.cell_data["cd"] = cd.copy()
    sa.cell_data["cv"] = cv.copy()
    sb.cell_data["cd"] = np.full(NC, 77)
    res, method, perc = resolution(W, nmax=nmax)
    m = pvg.Volume(sa, sb, res, method)
    n = len(perc)
    d = dims_of(axis, n1, n2, n)
    W.check("dimensions", tuple(m.dimensions) == d)
    c_sd = tuple(max(1, x - 1) for x in sd)
    c_d = tuple(max(1, x - 1) for x in d)
    want = [None] * (N * n)
    wpd, wpw = [None] * (N * n), [None] * (N * n)
    for i in range(n1):
        for j in range(n2):
            s = sidx(sd, *index_of(axis, i, j, 0))
            for k in range(n):
                t = sidx(d, *index_of(axis, i, j, k))
                want[t] = lerp(A[s], B[s], perc[k])
                wpd[t] = pd[s]
                wpw[t] = pw[s]
    W.eq("points", m.points, np.array(want))
    W.eq("point data", m.point_data["pd"], np.array(wpd))
    W.eq("vector point data", m.point_data["pw"], np.array(wpw))
    for i in range(n1 - 1):
        for j in range(n2 - 1):
            s = sidx(c_sd, *index_of(axis, i, j, 0))
            for k in range(n - 1):
                t = sidx(c_d, *index_of(axis, i, j, k))
                W.check("cell data", m.cell_data["cd"][t] == cd[s])
                W.eq("vector cell data", m.cell_data["cv"][t], cv[s])


def cancels(W, points, d, ijk):
    """Known finding `warped-cell`: VTK's split of this warped cell into five tetrahedra has no volume.

    Only for replays on the real code: the model of VTK adds the absolute volumes of the tetrahedra, so that
    they cannot cancel out.
    """
    if type(W).__name__ != "Real":
        return False
    i, j, k = ijk
    C = [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]
    P = [points[sidx(d, i + a, j + b, k + c)] for a, b, c in C]
    T = ((0, 1, 3, 4), (1, 4, 5, 6), (1, 4, 6, 3), (1, 3, 6, 2), (3, 6, 7, 4))
    V = [W.np.dot(P[b] - P[a], W.np.cross(P[c] - P[a], P[e] - P[a])) for a, b, c, e in T]
    return abs(sum(V)) <= 1e-12 * sum(abs(v) for v in V)


def warped(W):
    """Surfaces one apart everywhere, warped by six times that distance."""
    np, pvg = W.np, W.pvg
    node = W.choice("node", [0, 3])
    A = np.array([[2.0 * (s % 2), 3.0 * (s // 2), -6.0 if s == node else 0.0] for s in range(4)])
    B = A + np.array([0.0, 0.0, 1.0])
    m = pvg.Volume(structured(W, A, (2, 2, 1)), structured(W, B, (2, 2, 1)), 1)
    W.check("warped cell is visible", m.cell_data["vtkGhostType"][0] == 0)


def hidden(W, axis=2, nmax=2):
    """A cell is hidden exactly when the surfaces meet at its four corners (or its base cell is hidden)."""
    np, pv, pvg = W.np, W.pv, W.pvg
    n1, n2 = 3, 2
    sd = dims_of(axis, n1, n2, 1)
    N = n1 * n2
    h = [0.0] * N
    touch = [False] * N
    sign = W.choice("sign", [1.0, -1.0])
    z = W.arr("z", N, -8, 8)
    A, B = np.zeros((N, 3)), np.zeros((N, 3))
    u, v = [a for a in range(3) if a != axis]
    # one symbolic thickness for the open nodes keeps the volumes quadratic-free
    th = W.real("th", 2e-7, 4)
    off, size = W.choice("offset", [(0.0, 1.0), (-1e6, 1.0), (0.0, 2.0**-12)])
    z = z + off
    for i in range(n1):
        for j in range(n2):
            s = sidx(sd, *index_of(axis, i, j, 0))
            touch[s] = W.flag(f"touch{s}")
            A[s, u] = B[s, u] = 2.0 * i * size
            A[s, v] = B[s, v] = 3.0 * j * size
            A[s, axis] = z[s]
            B[s, axis] = z[s] if touch[s] else z[s] + sign * th
    sa, sb = structured(W, A, sd), structured(W, B, sd)
    pre = W.choice("pre", [None, [True, False]])
    if pre is None:
        pre = [False, False]
    else:
        sa.cell_data["vtkGhostType"] = np.array([32 if p else 0 for p in pre], dtype=np.uint8)
    n = W.choice("n", list(range(1, nmax + 1)))
    m = pvg.Volume(sa, sb, n)
    d = dims_of(axis, n1, n2, n + 1)
    c_d = tuple(max(1, x - 1) for x in d)
    g = m.cell_data["vtkGhostType"]
    for i in range(n1 - 1):
        flat = all(touch[sidx(sd, *index_of(axis, i + a, b, 0))] for a in (0, 1) for b in (0, 1))
        for k in range(n):
            t = sidx(c_d, *index_of(axis, i, 0, k))
            if not flat and not pre[i] and cancels(W, m.points, d, index_of(axis, i, 0, k)):
                continue
            W.check("hidden" if flat or pre[i] else "visible", g[t] == (32 if flat or pre[i] else 0))


def corners(W, axis=2, nmax=1):
    """Any subset of the cells of a 3x3 grid of nodes is collapsed."""
    np, pvg = W.np, W.pvg
    sd = dims_of(axis, 3, 3, 1)
    z = W.arr("z", 9, -8, 8)
    th = W.real("th", 2e-7, 4)
    rest = W.flag("rest")
    touch = {(i, j): W.flag(f"touch{i}{j}") if i != 1 and j != 1 else rest for i in range(3) for j in range(3)}
    A, B = np.zeros((9, 3)), np.zeros((9, 3))
    u, v = [a for a in range(3) if a != axis]
    for (i, j), t in touch.items():
        s = sidx(sd, *index_of(axis, i, j, 0))
        A[s, u] = B[s, u] = 2.0 * i
        A[s, v] = B[s, v] = 3.0 * j
        A[s, axis] = z[s]
        B[s, axis] = z[s] if t else z[s] + th
    n = W.choice("n", list(range(1, nmax + 1)))
    m = pvg.Volume(structured(W, A, sd), structured(W, B, sd), n)
    c_d = dims_of(axis, 2, 2, n)
    g = m.cell_data["vtkGhostType"]
    for i in range(2):
        for j in range(2):
            flat = all(touch[i + a, j + b] for a in (0, 1) for b in (0, 1))
            for k in range(n):
                if not flat and cancels(W, m.points, dims_of(axis, 3, 3, n + 1), index_of(axis, i, j, k)):
                    continue
                W.check("hidden" if flat else "visible", g[sidx(c_d, *index_of(axis, i, j, k))] == (32 if flat else 0))


def gridded(W, nmax=2):
    """Image and rectilinear grids are accepted like structured ones."""
    np, pv, pvg = W.np, W.pv, W.pvg
    kind = W.choice("kind", ["image", "rectilinear"])
    o = [W.real(f"o{k}", -4, 4) for k in range(3)]
    s = [W.real(f"s{k}", 0.5, 4) for k in range(2)]
    H = W.real("H", 0.5, 8)
    if kind == "image":
        mk = lambda dz: pv.ImageData(dimensions=(3, 2, 1), spacing=(s[0], s[1], 1.0), origin=(o[0], o[1], o[2] + dz))
        xs, ys = [o[0] + s[0] * i for i in range(3)], [o[1] + s[1] * i for i in range(2)]
    else:
        xs, ys = [o[0], o[0] + s[0], o[0] + 3 * s[0]], [o[1], o[1] + s[1]]
        mk = lambda dz: pv.RectilinearGrid(np.array(xs), np.array(ys), np.array([o[2] + dz]))
    sa, sb = mk(0.0), mk(H)
    cd = W.arr("cd", 2, 0, 9, kind="i")
    sa.cell_data["cd"] = cd.copy()
    res, method, perc = resolution(W, nmax=nmax, explicit=False)
    m = pvg.Volume(sa, sb, res, method)
    W.check("dimensions", tuple(m.dimensions) == (3, 2, len(perc)))
    W.eq("points", m.points, np.array([[x, y, o[2] + t * H] for t in perc for y in ys for x in xs]))
    W.eq("cell data", m.cell_data["cd"], np.array([cd[i] for _ in perc[1:] for i in range(2)]))


def refused(W):
    np, pv, pvg = W.np, W.pv, W.pvg
    bad = W.choice("bad", ["dims", "points", "type", "3d", "1d", "planes"])
    A = W.arr("A", (6, 3), -8, 8)
    s = structured(W, A, (3, 2, 1))
    if bad == "dims":
        o = structured(W, A, (2, 3, 1))
    elif bad == "planes":
        Q = W.arr("Q", (9, 3), -8, 8)
        d = [(3, 3, 1), (3, 1, 3), (1, 3, 3)]
        i = W.choice("i", [0, 1, 2])
        s, o = structured(W, Q, d[i]), structured(W, Q, d[(i + W.choice("j", [1, 2])) % 3])
    elif bad == "points":
        o = structured(W, A[:4], (2, 2, 1))
    elif bad == "type":
        o = pv.UnstructuredGrid(np.array([4, 0, 1, 4, 3]), np.array([9]), A)
    elif bad == "1d":
        s = o = structured(W, A, W.choice("line", [(6, 1, 1), (1, 6, 1), (1, 1, 6)]))
    else:
        P = W.arr("P", (8, 3), -8, 8)
        s = o = structured(W, P, (2, 2, 2))
    W.check("inconsistent surfaces are refused", W.raises(ValueError, pvg.Volume, s, o, 1))


def instances(tier):
    q = tier == "quick"
    n = 2 if q else 5
    out = []
    for ax in range(3):
        out.append(Instance(f"generic-axis{ax}", generic, f"3x2 nodes, <= {n} subdivisions", axis=ax, nmax=n))
        out.append(Instance(f"single-axis{ax}", generic, f"2x2 nodes, <= {n} subdivisions", axis=ax, n1=2, n2=2, nmax=n))
        out.append(Instance(f"hidden-axis{ax}", hidden, "3x2 nodes, surfaces meeting at any subset of nodes", axis=ax, nmax=1 if q else 3, max_paths=20000, replays=12))
        out.append(Instance(f"corners-axis{ax}", corners, "3x3 nodes, any subset of cells collapsed", axis=ax, nmax=1 if q else 3, replays=12))
    out.append(Instance("gridded", gridded, "image/rectilinear inputs", nmax=n))
    out.append(Instance("refused", refused, "invalid arguments"))
    out.append(Instance("warped-cell", warped, "one warped cell (known finding)"))
    return out
