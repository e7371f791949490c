"""Subdivision rule: the same resolution/method means the same relative positions everywhere."""
from .lib import *

BOUNDS = "integer resolutions -2..6 (quick) or -2..12 (thorough) with every method, explicit positions: up to 3 unordered symbolic values in [-1.5, 2.5], repeated ones included; end points with arbitrary coordinates in [-8, 8]"


def pick(W, nmax):
    kind = W.choice("res_kind", ["none", "int", "sorted", "unsorted", "tuple2", "repeated", "beyond"])
    if kind == "none":
        m = W.choice("method", METHODS)
        return None, m, perc_of(1, m)
    if kind == "int":
        n = W.choice("res", list(range(-2, nmax + 1)))
        m = W.choice("method", METHODS)
        return n, m, perc_of(n, m)
    p = W.real("p", 0.0, 1.0)
    if kind == "sorted":
        W.assume(W.and_(p > 0.05, p < 0.95))
        return [0.0, p, 1.0], W.choice("method", METHODS), [0.0, p, 1.0]
    if kind == "repeated":
        return [0.0, p, p, 1.0], None, [0.0, p, p, 1.0]
    if kind == "beyond":
        return [1.0, p - 1.5, p + 1.5, 0.0], None, [p - 1.5, 0.0, 1.0, p + 1.5]
    q = W.real("q", 0.0, 1.0)
    W.assume(W.abs(p - q) > 0.01)
    if kind == "tuple2":
        return (p, q), None, [W.min(p, q), W.max(p, q)]
    W.assume(W.and_(p > 0.05, p < 0.95, q > 0.05, q < 0.95))
    return W.np.array([q, 1.0, p, 0.0]), None, [0.0, W.min(p, q), W.max(p, q), 1.0]


def line(W, nmax=6):
    np, pvg = W.np, W.pvg
    res, method, perc = pick(W, nmax)
    a, b = W.arr("a", (2, 3), -8, 8), W.arr("b", (2, 3), -8, 8)
    m = pvg.StructuredSurface(a, b, "xy", res, method)
    W.check("dimensions", tuple(m.dimensions) == (2, len(perc), 1))
    want = [lerp(a[i], b[i], t) for t in perc for i in range(2)]
    W.eq("points", m.points, np.array(want))


def quad(W, nmax=3):
    np, pvg = W.np, W.pvg
    res, method, perc = pick(W, nmax)
    P = W.arr("P", (4, 2), -8, 8)
    axis = W.choice("axis", ["x", "y"])
    kw = {f"{axis}_resolution": res, f"{axis}_method": method}
    m = pvg.Quadrilateral(P, **kw)
    W.check("dimensions", tuple(m.dimensions) == ((len(perc), 2, 1) if axis == "x" else (2, len(perc), 1)))
    if axis == "x":
        want = [lerp(P[0], P[1], t) + [0.0] for t in perc] + [lerp(P[3], P[2], t) + [0.0] for t in perc]
    else:
        want = [lerp(u, v, t) + [0.0] for t in perc for u, v in ((P[0], P[3]), (P[1], P[2]))]
    W.eq("points", m.points, np.array(want))


def volume(W, kind="structured", nmax=4):
    np, pv, pvg = W.np, W.pv, W.pvg
    res, method, perc = pick(W, nmax)
    za, zb = W.arr("za", 4, -8, 8), W.arr("zb", 4, -8, 8)
    x, y = np.array([0.0, 2.0, 0.0, 2.0]), np.array([0.0, 0.0, 3.0, 3.0])
    sa, sb = (quad_surface(W, kind, np.column_stack((x, y, z))) for z in (za, zb))
    m = pvg.Volume(sa, sb, res, method)
    n = len(perc)
    W.check("cells", m.n_cells == n - 1)
    want = [[x[i], y[i], za[i] + t * (zb[i] - za[i])] for t in perc for i in range(4)]
    W.eq("points", m.points, np.array(want))


def stack(W, kind="2d", nmax=4, bottom_up=True):
    """Layers of a stack item follow the same rule (whatever the stacking direction)."""
    np, pv, pvg = W.np, W.pv, W.pvg
    res, method, perc = pick(W, nmax)
    z0, dz = W.real("z0", -8, 8), W.real("dz", 0.25, 8)
    sign = 1.0 if bottom_up else -1.0
    if kind == "2d":
        st = pvg.MeshStack2D([0.0, 2.0, 5.0], bottom_up=bottom_up)
        nb = 3
    else:
        st = pvg.MeshStack3D(pvg.Rectangle(2.0, 3.0), bottom_up=bottom_up)
        nb = 4
    m = st.add(z0).add(dz, resolution=res, method=method).generate_mesh()
    n = len(perc)
    W.check("points", m.n_points == nb * n)
    W.eq("elevations", m.points[:, 2], np.array([z0 + t * (z0 + sign * dz - z0) for t in perc for _ in range(nb)]))


def extrude(W, nmax=4):
    np, pvg = W.np, W.pvg
    res, method, perc = pick(W, nmax)
    v = W.arr("v", 3, -8, 8)
    W.assume(v[2] > 0.5)
    m = pvg.MeshExtrude(pvg.Rectangle(2.0, 3.0)).add(v, resolution=res, method=method).generate_mesh()
    base = [(0.0, 0.0, 0.0), (2.0, 0.0, 0.0), (0.0, 3.0, 0.0), (2.0, 3.0, 0.0)]
    want = [[b[k] + t * v[k] for k in range(3)] for t in perc for b in base]
    W.check("cells", m.n_cells == len(perc) - 1)
    W.eq("points", m.points, np.array(want))


def shapes(W, shape="AnnularSector", nmax=3):
    """Angular and radial subdivision of the arcs (angles are concrete, radii symbolic)."""
    import math

    np, pvg = W.np, W.pvg
    n = W.choice("res", [None] + list(range(-1, nmax + 1)))
    meth = W.choice("method", METHODS)
    perc = perc_of(n, meth)
    t0, t1 = W.choice("theta", [(0.0, 90.0), (30.0, 150.0), (90.0, -45.0)])
    R = W.real("R", 1.0, 4.0)
    ang = [math.radians(t0 + p * (t1 - t0)) for p in perc]
    arc = lambda r: [[r * math.cos(t), r * math.sin(t), 0.0] for t in ang]
    if shape == "Sector":
        m = pvg.Sector(R, t0, t1, n, meth)
        W.eq("points", m.points, np.array([[0.0, 0.0, 0.0]] + arc(R)))
    elif shape == "theta":
        r = W.real("r", 0.1, 0.9)
        m = pvg.AnnularSector(r, R, t0, t1, theta_resolution=n, theta_method=meth)
        W.eq("points", m.points, np.array(arc(r) + arc(R)))
    else:
        r = W.real("r", 0.1, 0.9)
        m = pvg.AnnularSector(r, R, t0, t1, r_resolution=n, r_method=meth)
        c = [(math.cos(math.radians(t)), math.sin(math.radians(t))) for t in (t0, t1)]
        W.eq("points", m.points, np.array([[(r + p * (R - r)) * cx, (r + p * (R - r)) * cy, 0.0] for p in perc for cx, cy in c]))


def invalid(W):
    pvg = W.pvg
    a, b = W.arr("a", (2, 3), -8, 8), W.arr("b", (2, 3), -8, 8)
    bad = W.choice("bad", ["method", "2d", "3d"])
    if bad == "method":
        W.check("unknown method is refused", W.raises(ValueError, pvg.StructuredSurface, a, b, "xy", W.choice("n", [None, 1, 3]), W.choice("m", ["linear", "log_s", "r"])))
    else:
        r = [[0.0, 1.0]] if bad == "2d" else [[[0.0, 1.0]]]
        W.check("non 1D positions are refused", W.raises(ValueError, pvg.StructuredSurface, a, b, "xy", r))


def instances(tier):
    q = tier == "quick"
    n = 6 if q else 12
    out = [
        Instance("surface", line, f"n <= {n}", nmax=n),
        Instance("quadrilateral", quad, "n <= 3", nmax=3 if q else 6),
        Instance("volume-structured", volume, "n <= 4", kind="structured", nmax=4 if q else 8),
        Instance("volume-quad", volume, "n <= 4", kind="quad", nmax=4 if q else 8),
        Instance("extrude", extrude, "n <= 4", nmax=4 if q else 8),
        Instance("invalid", invalid, "refused arguments"),
    ]
    for k in ("2d", "3d"):
        for bu in (True, False):
            out.append(Instance(f"stack-{k}-{'up' if bu else 'down'}", stack, "n <= 4", kind=k, bottom_up=bu, nmax=4 if q else 8))
    for s in ("Sector", "theta", "radial"):
        out.append(Instance(f"arc-{s}", shapes, "n <= 3, three angle ranges", shape=s, nmax=3 if q else 6))
    return out
