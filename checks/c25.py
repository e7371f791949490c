"""Parametric shapes: sectors, annuli, shells, rectangles and their transitions."""
from .lib import *

BOUNDS = "1-3 subdivisions per direction (integers with every method, or explicit positions), symbolic radii, sides, heights and centres (2 or 3 coordinates or none), fixed and symbolic angles; fixed explicit positions for the transitions between rectangles and arcs; negative heights"
ASSUMPTIONS = ["cosine and sine of symbolic angles are any pair on the unit circle, the same for the same angle"]


def center_of(W, tag="c", zdim=True):
    kind = W.choice(tag + "_kind", ["none", "2d", "3d"] if zdim else ["none", "3d"])
    if kind == "none":
        return None, [0.0, 0.0, 0.0]
    c = [W.real(f"{tag}{i}", -20, 20) for i in range(3 if kind == "3d" else 2)]
    return c, (c + [0.0])[:3]


def angles_of(W, kind):
    if kind == "quarter":
        return 0.0, 90.0
    if kind == "fixed":
        return W.choice("angles", [(0.0, 90.0), (-30.0, 200.0), (45.0, 0.0)])
    a = W.real("tmin", -90, 90)
    return a, a + W.real("span", 10, 270)


def trig(W, deg):
    np = W.np
    t = np.deg2rad(deg) if W.sym else deg * math.pi / 180.0
    return np.cos(t), np.sin(t)


def arc_angles(W, t0, t1, perc):
    return [trig(W, t0 + p * (t1 - t0)) for p in perc]


def add(a, b):
    return [x + y for x, y in zip(a, b)]


def annular(W, func="AnnularSector", ang="fixed", rk=None, tk=None):
    np, pvg = W.np, W.pvg
    full = func == "Annulus"
    t0, t1 = (0.0, 360.0) if full else angles_of(W, ang)
    r0 = W.real("r0", 0, 4)
    r1 = r0 + W.real("dr", 1 / 4, 4)
    rr, rm, rp = resolution(W, "r", 2, kinds=rk)
    tr, tm, tp = resolution(W, "t", 3, kinds=tk)
    c, c3 = center_of(W)
    kw = dict(inner_radius=r0, outer_radius=r1, r_resolution=rr, theta_resolution=tr, r_method=rm, theta_method=tm, center=c)
    m = pvg.Annulus(**kw) if full else pvg.AnnularSector(theta_min=t0, theta_max=t1, **kw)
    A = arc_angles(W, t0, t1, tp)
    W.check("grid", tuple(m.dimensions) == (len(tp), len(rp), 1))
    W.eq("nodes", m.points, np.array([[c3[0] + (r0 + p * (r1 - r0)) * x, c3[1] + (r0 + p * (r1 - r0)) * y, c3[2]] for p in rp for x, y in A]))


def shell(W, func="CylindricalShellSector", ang="fixed", kinds=None):
    np, pvg = W.np, W.pvg
    full = func == "CylindricalShell"
    t0, t1 = (0.0, 360.0) if full else angles_of(W, ang)
    r0 = W.real("r0", 0, 4)
    r1 = r0 + W.real("dr", 1 / 4, 4)
    h = W.real("h", -9, 9)
    W.assume(W.abs(h) >= 1 / 4)
    rr, rm, rp = resolution(W, "r", 2, kinds=kinds)
    tr, tm, tp = 3, None, perc_of(3, None)
    zr, zm, zp = resolution(W, "z", 2, kinds=kinds)
    c, c3 = center_of(W, zdim=False)
    keep = list(c) if c is not None else None
    kw = dict(inner_radius=r0, outer_radius=r1, height=h, r_resolution=rr, theta_resolution=tr, z_resolution=zr, r_method=rm, theta_method=tm, z_method=zm, center=c)
    m = pvg.CylindricalShell(**kw) if full else pvg.CylindricalShellSector(theta_min=t0, theta_max=t1, **kw)
    A = arc_angles(W, t0, t1, tp)
    W.check("grid", tuple(m.dimensions) == (len(tp), len(rp), len(zp)))
    W.eq("nodes", m.points, np.array([[c3[0] + (r0 + p * (r1 - r0)) * x, c3[1] + (r0 + p * (r1 - r0)) * y, c3[2] + h * (z - 0.5)] for z in zp for p in rp for x, y in A]))
    if c is not None:
        W.check("centre kept", len(c) == 3)
        W.eq("centre kept", np.array(c), np.array(keep))


def sector(W, func="Sector", ang="fixed", closed=False):
    np, pvg = W.np, W.pvg
    full = func == "Circle"
    t0, t1 = (0.0, 360.0) if full else angles_of(W, ang)
    r = W.real("r", 1 / 4, 4)
    if full:
        n = W.choice("n", [3, 4, 5])
        me = W.choice("m", METHODS)
        res, tp = n, perc_of(n, me)
    else:
        res, me, tp = resolution(W, "t", 3)
    c, c3 = center_of(W) if not closed else (None, [0.0] * 3)
    m = pvg.Circle(r, res, me, c) if full else pvg.Sector(r, t0, t1, res, me, c)
    A = arc_angles(W, t0, t1, tp)
    if full:
        A[-1] = A[0]
    k = len(tp) - 1
    W.check("triangles", m.n_cells == k and [int(t) for t in m.celltypes] == [5] * k)
    if closed:
        W.check("the arc is closed: its first and last points are one", m.n_points == k + 1)
        return
    W.check("nodes", m.n_points in ((k + 1, k + 2) if full else (k + 2,)))
    conn = [int(v) for v in m.cell_connectivity]
    for i in range(k):
        W.eq("triangle from the centre to the arc", np.array([list(m.points[j]) for j in conn[3 * i : 3 * i + 3]]), np.array([c3, [c3[0] + r * A[i][0], c3[1] + r * A[i][1], c3[2]], [c3[0] + r * A[i + 1][0], c3[1] + r * A[i + 1][1], c3[2]]]))


def quad(W, func="Quadrilateral", kinds=None):
    np, pvg = W.np, W.pvg
    c, c3 = center_of(W)
    if func == "Square":
        d = W.real("dx", 1 / 4, 9)
        xr, xm, xp = resolution(W, "x", 3)
        yp = xp
        P = [[0.0, 0.0, 0.0], [d, 0.0, 0.0], [d, d, 0.0], [0.0, d, 0.0]]
        m = pvg.Square(d, xr, xm, c)
    else:
        xr, xm, xp = resolution(W, "x", 2, kinds=kinds[0])
        yr, ym, yp = resolution(W, "y", 2, kinds=kinds[1])
        if func == "Rectangle":
            dx, dy = W.real("dx", 1 / 4, 9), W.real("dy", 1 / 4, 9)
            P = [[0.0, 0.0, 0.0], [dx, 0.0, 0.0], [dx, dy, 0.0], [0.0, dy, 0.0]]
            m = pvg.Rectangle(dx, dy, xr, yr, xm, ym, c)
        else:
            dim = W.choice("dim", [2, 3])
            Q = W.arr("q", (4, dim), -9, 9)
            P = [[*list(q), 0.0][:3] for q in Q]
            m = pvg.Quadrilateral(Q, xr, yr, xm, ym, c)
    want = []
    for y in yp:
        for x in xp:
            a, b = lerp(P[0], P[1], x), lerp(P[3], P[2], x)
            want.append(add(lerp(a, b, y), c3))
    W.check("grid", tuple(m.dimensions) == (len(xp), len(yp), 1))
    W.eq("nodes", m.points, np.array(want))


def transition(W, func="RectangleSector", kinds=None, rk=None, cen=True, yk=None):
    np, pvg = W.np, W.pvg
    square = func in ("SquareSector", "SectorSquare")
    out = func in ("RectangleSector", "SquareSector")  # rectangle inside, arc outside
    dx = W.real("dx", 1 / 2, 4)
    dy = dx if square else W.real("dy", 1 / 2, 4)
    c, c3 = center_of(W) if cen else (None, [0.0, 0.0, 0.0])
    rr, rm, rp = resolution(W, "r", 2, kinds=rk)
    if out:
        rad = dx + dy + W.real("extra", 0, 4)
        xr, xm, xp = resolution(W, "x", 2, kinds=kinds)
        if square:
            yr, ym, yp = xr, xm, xp
            m = pvg.SquareSector(dx, rad, xr, rr, xm, rm, c)
        else:
            yr, ym, yp = resolution(W, "y", 2, kinds=yk or kinds)
            m = pvg.RectangleSector(dx, dy, rad, xr, yr, rr, xm, ym, rm, c)
    else:
        rad = W.real("radius", 1 / 4, 4)
        W.assume(W.and_(rad <= dx - 1 / 8, rad <= dy - 1 / 8))
        xr, xm, xp = yr, ym, yp = resolution(W, "t", 2, kinds=kinds)
        m = pvg.SectorSquare(rad, dx, rr, xr, rm, xm, c) if square else pvg.SectorRectangle(rad, dx, dy, rr, xr, rm, xm, c)
    blocks = []
    for end, t1, perc in (([dx, 0.0], 0.0, yp), ([0.0, dy], 90.0, xp)):
        line = [lerp([dx, dy], end, p) for p in perc]
        arc = [[rad * a, rad * b] for a, b in arc_angles(W, 45.0, t1, perc)]
        g = [[add([*(lerp(l, a, p) if out else lerp(a, l, p)), 0.0], c3) for l, a in zip(line, arc)] for p in rp]
        blocks.append([[g[j][i], g[j][i + 1], g[j + 1][i + 1], g[j + 1][i]] for j in range(len(rp) - 1) for i in range(len(perc) - 1)])
    n = len(rp)
    W.check("cells", m.n_cells == sum(map(len, blocks)) and [int(t) for t in m.celltypes] == [9] * m.n_cells)
    W.check("nodes, the ones of the diagonal once", m.n_points == n * (len(xp) + len(yp) - 1))
    conn = [int(v) for v in m.cell_connectivity]
    got = [[list(m.points[j]) for j in conn[4 * i : 4 * i + 4]] for i in range(m.n_cells)]
    same = lambda cells: W.and_(*[same_point(W, a, b, 1e-5) for g, w in zip(got, cells) for a, b in zip(g, w)])
    W.check("cells of both halves", W.or_(same(blocks[0] + blocks[1]), same(blocks[1] + blocks[0])))


def refused(W):
    pvg = W.pvg
    case = W.choice("case", ["annular", "negative", "sector", "inside", "outside"])
    a = W.real("a", 1 / 2, 4)
    b = W.real("b", 0, 4)
    if case == "annular":
        W.assume(b >= a)
        f = lambda: pvg.AnnularSector(b, a)
    elif case == "negative":
        f = lambda: pvg.Annulus(-a, b)
    elif case == "sector":
        f = lambda: pvg.Sector(-b)
    elif case == "inside":
        W.assume(W.and_(b >= 1 / 8, b <= a))
        f = lambda: pvg.RectangleSector(a, a, b)
    else:
        W.assume(b >= a)
        f = lambda: pvg.SectorRectangle(b, a, 9.0)
    W.check("refused", W.raises(ValueError, f))


DEFAULTS = {
    "AnnularSector": dict(inner_radius=0.5, outer_radius=1.0, theta_min=0.0, theta_max=90.0),
    "Annulus": dict(inner_radius=0.5, outer_radius=1.0),
    "CylindricalShellSector": dict(inner_radius=0.5, outer_radius=1.0, theta_min=0.0, theta_max=90.0, height=1.0),
    "CylindricalShell": dict(inner_radius=0.5, outer_radius=1.0, height=1.0),
    "Sector": dict(radius=1.0, theta_min=0.0, theta_max=90.0),
    "Circle": dict(radius=1.0),
    "Rectangle": dict(dx=1.0, dy=1.0),
    "Square": dict(dx=1.0),
    "RectangleSector": dict(dx=0.5, dy=0.5, radius=1.0),
    "SquareSector": dict(dx=0.5, radius=1.0),
    "SectorRectangle": dict(radius=0.5, dx=1.0, dy=1.0),
    "SectorSquare": dict(radius=0.5, dx=1.0),
}
RANGE = dict(inner_radius=(0.125, 0.75), outer_radius=(0.875, 2), height=(0.5, 2), theta_min=(-20, 20), theta_max=(60, 100))


def defaults(W, funcs=()):
    """An argument left out has its documented value."""
    func = W.choice("func", list(funcs))
    D = DEFAULTS[func]
    omit = W.choice("omit", list(D) + ["all"])
    kw = {}
    for k in D:
        if k.startswith("theta"):
            kw[k] = W.choice(k, [D[k], D[k] + 30.0])
        elif func in ("RectangleSector", "SquareSector"):
            kw[k] = W.choice(k, [D[k], 1.125] if k == "radius" else [D[k], 0.375])
        else:
            lo, hi = RANGE.get(k, (0.75 * D[k], 1.25 * D[k]))
            kw[k] = W.real(k, lo, hi)
    given = {k: v for k, v in kw.items() if k != omit and omit != "all"}
    full = {k: given.get(k, D[k]) for k in D}
    res = {} if func != "Circle" else dict(resolution=4)
    if func in ("Annulus", "CylindricalShell"):
        res = dict(theta_resolution=4)
    f = getattr(W.pvg, func)
    a, b = f(**given, **res), f(**full, **res)
    W.check("documented default", a.n_points == b.n_points and a.n_cells == b.n_cells)
    W.eq("documented default", a.points, b.points)


def default_quad(W):
    np, pvg = W.np, W.pvg
    xr, xm, xp = resolution(W, "x", 2, kinds=["none", "int"])
    m = pvg.Quadrilateral(x_resolution=xr, x_method=xm)
    W.eq("unit square", m.points, np.array([[x, y, 0.0] for y in (0.0, 1.0) for x in xp]))


def default_surface(W):
    """Without lines, the unit square."""
    np, pvg = W.np, W.pvg
    h = W.real("h", 2, 5)
    omit = W.choice("omit", ["a", "b", "both"])
    kw = {}
    la, lb = [(0.0, 0.0, 0.0), (1.0, 0.0, 0.0)], [(0.0, 1.0, 0.0), (1.0, 1.0, 0.0)]
    if omit == "a":
        lb = kw["line_b"] = [(0.0, h, 0.0), (1.0, h, 0.0)]
    if omit == "b":
        la = kw["line_a"] = [(0.0, -h, 0.0), (1.0, -h, 0.0)]
    m = pvg.StructuredSurface(**kw)
    W.check("grid", tuple(m.dimensions) == (2, 2, 1))
    W.eq("default lines", m.points, np.array([list(p) for p in la + lb]))


def instances(tier):
    ii, ee, ff, nn = ["int"], ["explicit"], ["fixed"], ["none"]
    every = ["none", "int", "explicit"]
    out = [
        Instance("annular-sector", annular, "fixed angles", ang="fixed", rk=ee, tk=every, replays=10),
        Instance("annular-sector-r", annular, "quarter", ang="quarter", rk=every, tk=ff, replays=10),
        Instance("annular-symbolic", annular, "symbolic angles", ang="symbolic", rk=ee, tk=ee, replays=10),
        Instance("annulus", annular, "full circle", func="Annulus", rk=ee, tk=ii, replays=10),
        Instance("shell-sector", shell, "fixed angles", replays=10, kinds=ee),
        Instance("shell", shell, "full", func="CylindricalShell", kinds=ee, replays=10),
        Instance("shell-symbolic", shell, "symbolic angles", ang="symbolic", kinds=ee, replays=10),
        Instance("shell-methods", shell, "quarter", ang="quarter", kinds=ii, replays=10, max_paths=200 if tier == "quick" else 2000),
        Instance("sector", sector, "fixed angles", replays=10),
        Instance("sector-symbolic", sector, "symbolic angles", ang="symbolic", replays=10),
        Instance("circle", sector, "full", func="Circle", replays=10),
        Instance("circle-closed", sector, "full, at the origin", func="Circle", closed=True, replays=10),
        Instance("square", quad, "symbolic side", func="Square", replays=10),
        Instance("refused", refused, "invalid radii"),
        Instance("defaults-round", defaults, "arguments left out", funcs=("AnnularSector", "Annulus", "CylindricalShell", "CylindricalShellSector", "Sector", "Circle"), replays=10),
        Instance("defaults-square", defaults, "arguments left out", funcs=("Rectangle", "Square", "RectangleSector", "SquareSector", "SectorRectangle", "SectorSquare"), replays=10),
        Instance("default-surface", default_surface, "no lines"),
        Instance("default-quad", default_quad, "no points"),
    ]
    for f in ("Quadrilateral", "Rectangle"):
        out.append(Instance(f.lower() + "-x", quad, f, func=f, kinds=[every, ee], replays=10))
        out.append(Instance(f.lower() + "-y", quad, f, func=f, kinds=[ee, every], replays=10))
    for f in ("RectangleSector", "SquareSector", "SectorRectangle", "SectorSquare"):
        out.append(Instance(f.lower(), transition, f, func=f, kinds=ii, rk=ff if tier != "quick" else nn, yk=ff, replays=10, cen=False))
        out.append(Instance(f.lower() + "-r", transition, f, func=f, kinds=nn, rk=["none", "int", "fixed"], replays=10, cen=False))
        if f != "SectorRectangle" or tier != "quick":
            out.append(Instance(f.lower() + "-c", transition, f, func=f, kinds=ff, rk=ff, replays=10))
        out.append(Instance(f.lower() + "-none", transition, f, func=f, kinds=ff, yk=nn, rk=ii, cen=False, replays=10))
    out.append(Instance("rectanglesector-y", transition, "RectangleSector", kinds=ff, yk=ii, rk=nn, cen=False, replays=10))
    return out
