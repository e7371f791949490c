"""Polyhedra extruded from polygons are closed and their faces point outwards."""
from .lib import *

BOUNDS = "convex, aligned-node and concave polygons of 4-6 nodes, normal to any axis, either winding, any starting node, symbolic stretch in x and y, symbolic thickness per node (zero at one or two neighbouring nodes allowed) of either sign, symbolic shear, <= 3 subdivisions (4 thorough), two polygons sharing an edge"

SHAPES = {
    "pentagon": [(0.0, 0.0), (2.0, 0.0), (2.5, 1.0), (2.0, 2.0), (0.0, 2.0)],
    "aligned": [(0.0, 0.0), (1.0, 0.0), (2.0, 0.0), (2.0, 2.0), (0.0, 2.0)],
    "quad": [(0.0, 0.0), (2.0, 0.25), (2.0, 2.0), (0.0, 2.0)],
    "concave": [(0.0, 0.0), (2.0, 0.0), (2.0, 2.0), (1.0, 0.5), (0.0, 2.0)],
    "chevron": [(0.0, 0.0), (2.0, 2.0), (0.0, 0.25), (-2.0, 2.0), (-1.0, 1.0)],
    "hexagon": [(0.0, 0.0), (1.0, 0.0), (2.0, 1.0), (2.0, 2.0), (1.0, 2.0), (0.0, 1.0)],
}


def closed(faces):
    """Every directed edge is matched by exactly one opposite edge."""
    e = [(f[i], f[(i + 1) % len(f)]) for f in faces for i in range(len(f))]
    return len(set(e)) == len(e) and all((b, a) in set(e) for a, b in e)


def newell_z(P, f, axis=2):
    s, u, v = 0.0, (axis + 1) % 3, (axis + 2) % 3
    for i in range(len(f)):
        a, b = P[f[i]], P[f[(i + 1) % len(f)]]
        s = s + a[u] * b[v] - a[v] * b[u]
    return s


def verify(W, m, conn, cells, N, n, sign, axis=2):
    for c, got in enumerate(conn):
        k, base = divmod(c, len(cells))
        faces = [[int(i) for i in f] for f in got]
        W.check("closed, consistently oriented", closed(faces))
        lo = sorted(i + k * N for i in cells[base])
        bottom = [f for f in faces if sorted(f) == lo]
        W.check("bottom face", len(bottom) == 1)
        if len(bottom) == 1:
            W.check("faces point outwards", newell_z(m.points, bottom[0], axis) * sign < 0.0)
        up = [i + N for i in lo]
        sides = [f for f in faces if sorted(f) not in (lo, up)]
        W.check("top face and sides", len(faces) == len(lo) + 2 and len(sides) == len(lo))
        W.check("sides stand on the edges of the base", all(len(f) == 4 and len({i % N for i in f}) == 2 and len({i // N for i in f}) == 2 for f in sides))


def single(W, shape="pentagon", nmax=2, axis=2):
    np, pv, pvg = W.np, W.pv, W.pvg
    S = SHAPES[shape]
    N = len(S)
    sx, sy = W.real("sx", 0.5, 2.0), W.real("sy", 0.5, 2.0)
    shx, shy = W.real("shx", -3, 3), W.real("shy", -3, 3)
    z = W.real("z", -5, 5)
    sign = W.choice("sign", [1.0, -1.0])
    pinch = W.choice("pinch", [(), (0,), (1,), (0, 1)])
    h = [0.0 if i in pinch else W.real(f"h{i}", 0.5, 3.0) for i in range(N)]
    ring = list(range(N))
    if W.flag("mirror"):
        ring = ring[::-1]
    s = W.choice("start", list(range(N)))
    ring = ring[s:] + ring[:s]
    turn = lambda p: [p[(j - axis - 1) % 3] for j in range(3)]
    P = np.array([turn([sx * x, sy * y, z]) for x, y in S])
    Q = np.array([turn([sx * x + shx, sy * y + shy, z + sign * h[i]]) for i, (x, y) in enumerate(S)])
    mk = lambda X: pv.UnstructuredGrid(np.array([N, *ring]), np.array([7]), X)
    n = W.choice("n", list(range(1, nmax + 1)))
    m = pvg.Volume(mk(P), mk(Q), n)
    W.check("cells", m.n_cells == n)
    W.check("types", all(int(t) == 42 for t in m.celltypes))
    verify(W, m, pvg.get_cell_connectivity(m), [ring], N, n, sign, axis)


PAIR = [(0.0, 0.0), (2.0, 0.0), (2.0, 2.0), (0.0, 2.0), (4.0, 0.5), (4.0, 2.0)]


def pair(W, via="volume", nmax=2):
    """Two polygons sharing an edge, with independent windings; through Volume, a stack and an extrusion."""
    np, pv, pvg = W.np, W.pv, W.pvg
    cells = [[0, 1, 2, 3], [1, 4, 5, 2]]
    cells = [c[::-1] if W.flag(f"rev{i}") else c for i, c in enumerate(cells)]
    N = len(PAIR)
    sx, z0 = W.real("sx", 0.5, 2.0), W.real("z0", -5, 5)
    h = W.real("h", 0.5, 4.0)
    n = W.choice("n", list(range(1, nmax + 1)))
    P = np.array([[sx * x, y, 0.0] for x, y in PAIR])
    s = pv.UnstructuredGrid(np.array([x for c in cells for x in (4, *c)]), np.array([7, 7]), P)
    if via == "volume":
        sign = W.choice("sign", [1.0, -1.0])
        t = s.copy()
        t.points = np.array([[sx * x, y, sign * h] for x, y in PAIR])
        m = pvg.Volume(s, t, n)
    elif via == "stack":
        up = W.flag("bottom_up")
        sign = 1.0 if up else -1.0
        m = pvg.MeshStack3D(s, bottom_up=up).add(z0).add(h, n).generate_mesh()
    else:
        sign = W.choice("sign", [1.0, -1.0])
        m = pvg.MeshExtrude(s).add([0.0, 0.0, sign * h], n).generate_mesh()
    W.check("cells", m.n_cells == 2 * n)
    for c, got in enumerate(pvg.get_cell_connectivity(m)):
        faces = [[int(i) for i in f] for f in got]
        W.check("closed, consistently oriented", closed(faces))
        k = c // 2
        lo = (0.0 if via != "stack" else z0) + sign * h * k / n
        for f in faces:
            flat = W.and_(*[W.abs(m.points[i][2] - lo) < 1e-4 for i in f])
            W.check("faces point outwards", W.implies(flat, newell_z(m.points, f) * sign < 0.0))
        # sides are vertical: each node lies right above or below another one
        W.check("faces of a prism", len(faces) == 6)
        xy = lambda i, j: W.and_(W.abs(m.points[i][0] - m.points[j][0]) < 1e-4, W.abs(m.points[i][1] - m.points[j][1]) < 1e-4)
        up = [W.and_(*[W.or_(*[xy(i, j) for j in f if j != i]) for i in f]) for f in faces]
        W.check("four vertical sides", sum(W.ite(x, 1, 0) for x in up) == 4)


def instances(tier):
    q = tier == "quick"
    n = 3 if q else 4
    out = [Instance(f"single-{s}", single, f"one {s}, <= {n} subdivisions", shape=s, nmax=3 if q else n, replays=12) for s in SHAPES]
    out += [Instance(f"single-axis{a}", single, f"one {s} normal to axis {a}", shape=s, axis=a, nmax=n, replays=12) for a, s in ((0, "concave"), (1, "quad"))]
    out += [Instance(f"pair-{v}", pair, f"two polygons through {v}, <= {n} subdivisions", via=v, nmax=n, replays=12) for v in ("volume", "stack", "extrude")]
    return out
