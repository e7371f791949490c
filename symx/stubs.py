"""Stand-ins for the native libraries the code calls (part of every claim; listed in DESIGN.md)."""
from __future__ import annotations

import types

import numpy as rnp

from . import core, symnp, sympv
from .core import Unsupported, is_sym
from .sympv import plain
from .symnp import SA, asarray, has_sym, wrap


def symnp_obj(v):
    o = rnp.empty(len(v), dtype=object)
    o[:] = v
    return o


class KDTree:
    """Neighbour pairs.  The order of the returned pairs is arbitrary: rotated/reversed by a
    symbolic choice, because scipy returns a set."""

    order = 0

    def __init__(self, points, *a, **k):
        self.p = asarray(points)

    def query_pairs(self, r, *a, **k):
        P = self.p.view(rnp.ndarray)
        n = len(P)
        out = []
        for i in range(n):
            for j in range(i + 1, n):
                ds = [symnp.UF["subtract"](P[i][q], P[j][q]) for q in range(P.shape[1])]
                ds = [d for d in ds if is_sym(d) or float(d) != 0.0]
                if not is_sym(r) and any(not is_sym(d) and abs(float(d)) > r for d in ds):
                    continue
                if len(ds) <= 1:
                    near = symnp.UF["less_equal"](core.sabs(ds[0]) if ds else 0.0, r)
                else:
                    d2 = 0.0
                    for d in ds:
                        d2 = symnp.UF["add"](d2, symnp.UF["multiply"](d, d))
                    near = symnp.UF["less_equal"](d2, symnp.UF["multiply"](r, r))
                if bool(near):
                    out.append((i, j))
        return order_pairs(out)

    def query(self, x, k=1, *a, **kw):
        if has_sym(self.p) or has_sym(x):
            x = asarray(x)
            if k != 1 or a or kw or x.ndim != 1:
                raise Unsupported("KDTree.query on symbolic points")
            d2 = []
            for q in self.p.view(rnp.ndarray):
                s = 0.0
                for u, v in zip(q, x.view(rnp.ndarray)):
                    s = symnp.UF["add"](s, symnp.UF["multiply"](u - v, u - v))
                d2.append(s)
            for i, d in enumerate(d2):
                if not is_sym(d) and float(d) == 0.0:
                    return 0.0, i
            i = int(symnp.argmin(wrap(symnp_obj(d2))))
            return core.sqrt(d2[i]), i
        from scipy.spatial import KDTree as R

        d, i = R(self.p.numeric()).query(symnp.conc(asarray(x)), k, *a, **kw)
        return wrap(d), wrap(i)

    def __getattr__(self, n):
        raise Unsupported(f"KDTree.{n}")


PAIR_ORDER = {"hook": None}


class Pairs(set):
    """A set of pairs iterated in a chosen order (the order of a set is not specified)."""

    def __init__(self, pairs, key):
        super().__init__(pairs)
        self._o = sorted(pairs, key=key)

    def __iter__(self):
        return iter(self._o)


def order_pairs(pairs):
    h = PAIR_ORDER["hook"]
    return Pairs(pairs, h) if h else set(pairs)


class pair_order:
    """Pairs of the real KDTree in a chosen order (replays)."""

    def __init__(self, key, sym):
        self.key, self.sym = key, sym

    def __enter__(self):
        PAIR_ORDER["hook"] = self.key
        if not self.sym:
            from scipy.spatial import KDTree as R

            self.R, self.f = R, R.query_pairs
            f, key = self.f, self.key

            def query_pairs(tree, *a, **k):
                res = f(tree, *a, **k)
                return Pairs(res, key) if isinstance(res, set) else res

            R.query_pairs = query_pairs

    def __exit__(self, *a):
        PAIR_ORDER["hook"] = None
        if not self.sym:
            self.R.query_pairs = self.f


class LinearNDInterpolator:
    def __init__(self, x, y, *a, **k):
        self.x, self.y = asarray(x), asarray(y)
        if has_sym(self.x):
            raise Unsupported("interpolation from symbolic positions")

    def __call__(self, q):
        """Barycentric interpolation: linear in the values, weights from scipy itself."""
        from scipy.interpolate import LinearNDInterpolator as R

        q = asarray(q)
        if has_sym(q):
            raise Unsupported("interpolation at symbolic positions")
        X, Q = self.x.numeric(), q.numeric()
        W = R(X, rnp.eye(len(X)))(Q)
        Y = self.y.view(rnp.ndarray)
        o = rnp.empty(len(Q), dtype=object)
        for i in range(len(Q)):
            if rnp.isnan(W[i]).any():
                o[i] = float("nan")
                continue
            s = 0.0
            for w, y in zip(W[i], Y):
                w = round(float(w), 12)
                if w != 0.0:
                    s = s + w * y
            o[i] = s
        return wrap(o, symnp.F8)


class NearestNDInterpolator:
    def __init__(self, x, y, *a, **k):
        self.x, self.y = asarray(x), asarray(y)

    def __call__(self, q):
        from scipy.interpolate import NearestNDInterpolator as R

        q = asarray(q)
        if has_sym(q) or has_sym(self.x):
            raise Unsupported("nearest interpolation at symbolic positions")
        j = R(self.x.numeric(), rnp.arange(len(self.x)))(q.numeric()).astype(int)
        return self.y[j]


class Rotation:
    def __init__(self, m):
        self.m = m

    @staticmethod
    def from_rotvec(v, degrees=False):
        if has_sym(v):
            return Rotation(_rotvec(v, degrees))
        from scipy.spatial.transform import Rotation as R

        return Rotation(R.from_rotvec(symnp.conc(asarray(v)), degrees=degrees).as_matrix())

    def apply(self, p, inverse=False):
        m = self.m.T if inverse else self.m
        return symnp.matmul(asarray(p), wrap(rnp.array(m.T)) if not isinstance(m, SA) else m.T)

    def as_matrix(self):
        return wrap(rnp.array(self.m))

    def inv(self):
        return Rotation(self.m.T)

    def __getattr__(self, n):
        raise Unsupported(f"Rotation.{n}")


def _rotvec(v, degrees):
    v = list(asarray(v))
    nz = [i for i in range(3) if is_sym(v[i]) or float(v[i]) != 0.0]
    if len(nz) != 1:
        raise Unsupported("rotation about a symbolic axis")
    a = v[nz[0]] * (rnp.pi / 180.0 if degrees else 1.0)
    c, s = core.trig("cos", a), core.trig("sin", a)
    o = rnp.empty((3, 3), dtype=object)
    o[...] = 0.0
    i, j = [k for k in range(3) if k != nz[0]]
    sg = -1.0 if nz[0] == 1 else 1.0
    o[nz[0], nz[0]] = 1.0
    o[i, i], o[j, j], o[i, j], o[j, i] = c, c, -s * sg, s * sg
    return wrap(o, symnp.F8)


class _RotMeta:
    pass


class Missing:
    def __init__(self, name):
        self.__dict__["_n"] = name

    def __call__(self, *a, **k):
        raise Unsupported(self._n)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Missing(f"{self._n}.{n}")


class _Conc:
    """A native library that runs for real on concrete arguments."""

    def __init__(self, f):
        self._f = f

    def __call__(self, *a, **k):
        if has_sym(a) or has_sym(k):
            raise Unsupported(f"{getattr(self._f, '__name__', 'native')} on symbolic values")
        return self._f(*[symnp.conc(x) for x in a], **{n: symnp.conc(v) for n, v in k.items()})


# Set by a check, per path: function(points) -> one ring of (x, y) vertices per point.
VORONOI = {"rings": None}
CLIPS = []  # polygons that others were clipped by, on this path


def voronoi_rings(W, f):
    """Abstract tessellation of the symbolic world: any rings the check provides."""
    if W.sym:
        VORONOI["rings"] = f


class _Voronoi:
    def __init__(self, f):
        self._f = f

    def __call__(self, points, *a, **k):
        if VORONOI["rings"] is None:
            return _Conc(self._f)(points, *a, **k)
        points = asarray(points)
        rings = VORONOI["rings"](points)
        if hasattr(rings, "ridge_points"):
            # a whole diagram
            rings.points = points
            rings.vertices = asarray([list(q) for q in rings.vertices])
            rings.point_region = wrap(rnp.array(rings.point_region))
            rings.ridge_points = wrap(rnp.array(rings.ridge_points))
            return rings
        v = types.SimpleNamespace()
        v.points = points
        n = 0
        v.regions = []
        flat = []
        for r in rings:
            v.regions.append(list(range(n, n + len(r))))
            flat += [list(q) for q in r]
            n += len(r)
        v.vertices = asarray(flat)
        v.point_region = wrap(rnp.arange(len(rings)))
        v.ridge_points = wrap(rnp.zeros((0, 2), dtype=int))
        v.ridge_vertices = []
        return v


class _Poly:
    """A shapely polygon with symbolic coordinates."""

    def __init__(self, shell, holes=None):
        c = asarray(shell)[:, :2]
        if len(c) > 1 and all((not is_sym(d)) and float(d) == 0.0 for d in (c[0] - c[-1])):
            c = c[:-1]
        self.ring = c
        self.holes = holes

    is_valid = True
    is_empty = False

    def intersection(self, other):
        # the abstract rings lie within the boundary
        CLIPS.append((self, other))
        return other if isinstance(other, _Poly) else self

    @property
    def area(self):
        P = [list(q) for q in self.ring]
        s = 0.0
        for a, b in zip(P, P[1:] + P[:1]):
            s = s + (a[0] * b[1] - b[0] * a[1])
        return core.sabs(s) * 0.5

    def contains(self, other):
        """Every node within the ring, which may be concave (even-odd rule)."""
        P = [list(q) for q in self.ring]
        Q = [list(q) for q in (other.ring if isinstance(other, _Poly) else asarray(rnp.array(other.exterior.coords))[:-1])]
        gt, iff = symnp.UF["greater"], symnp.UF["equal"]
        out = []
        for q in Q:
            odd = False
            for a, b in zip(P, P[1:] + P[:1]):
                up, ub = gt(a[1], q[1]), gt(b[1], q[1])
                # the segment crosses the half line on the right of the node
                c = (b[0] - a[0]) * (q[1] - a[1]) - (b[1] - a[1]) * (q[0] - a[0])
                hit = symnp.UF["logical_and"](symnp.UF["logical_xor"](up, ub), iff(gt(c, 0.0), up))
                odd = symnp.UF["logical_xor"](odd, hit)
            out.append(odd)
        return core.sand(*out)

    # relations of rings that do not cross each other: nested or apart
    covers = contains_properly = contains

    def within(self, other):
        return _Poly.of(other).contains(self)

    covered_by = within

    def intersects(self, other):
        return symnp.UF["logical_or"](self.contains(other), self.within(other))

    def disjoint(self, other):
        return symnp.UF["logical_not"](self.intersects(other))

    def representative_point(self):
        return _Poly(self.ring.mean(axis=0).reshape((1, 2)))

    @property
    def centroid(self):
        P = [list(q - self.ring[0]) for q in self.ring]
        s, x, y = 0.0, 0.0, 0.0
        for a, b in zip(P, P[1:] + P[:1]):
            c = a[0] * b[1] - b[0] * a[1]
            s, x, y = s + c, x + c * (a[0] + b[0]), y + c * (a[1] + b[1])
        return _Poly(asarray([[self.ring[0][0] + x / (3.0 * s), self.ring[0][1] + y / (3.0 * s)]]))

    @property
    def bounds(self):
        return (*self.ring.min(axis=0), *self.ring.max(axis=0))

    @property
    def exterior(self):
        return types.SimpleNamespace(coords=symnp.vstack((self.ring, self.ring[:1])))

    @staticmethod
    def of(g):
        return g if isinstance(g, _Poly) else _Poly(rnp.array(g.exterior.coords)[:-1])

    def __getattr__(self, n):
        raise Unsupported(f"shapely polygon .{n} with symbolic coordinates")


def _polygon(*a, **k):
    import shapely

    if has_sym(a) or has_sym(k):
        return _Poly(*a, **k)
    return _RealPoly(_Conc(shapely.Polygon)(*a, **k))


class _RealPoly:
    def __init__(self, g):
        self._g = g

    def intersection(self, o):
        return o if isinstance(o, _Poly) else _RealPoly(self._g.intersection(o._g))

    def contains(self, o):
        if isinstance(o, _Poly):
            return _Poly(rnp.array(self._g.exterior.coords)[:-1]).contains(o)
        return bool(self._g.contains(o._g))

    def __getattr__(self, n):
        if n in ("covers", "contains_properly", "within", "covered_by", "intersects", "disjoint"):
            return lambda o: getattr(_Poly.of(self._g), n)(o) if isinstance(o, _Poly) else getattr(self._g, n)(o._g)
        return getattr(self._g, n)


def _get_coordinates(g, *a, **k):
    import shapely

    if isinstance(g, _Poly):
        return symnp.vstack((g.ring, g.ring[:1]))
    return wrap(shapely.get_coordinates(getattr(g, "_g", g), *a, **k))


def _contains_xy(g, x, y=None, **k):
    """Points strictly inside a polygon without holes (those on its rim are left open)."""
    import shapely

    if not has_sym((x, y)) and not isinstance(g, _Poly):
        return wrap(shapely.contains_xy(getattr(g, "_g", g), plain(x), None if y is None else plain(y), **k))
    x = asarray(x)
    if y is None:
        x, y = x[..., 0], x[..., 1]
    y = asarray(y)
    ring = g.ring if isinstance(g, _Poly) else asarray(rnp.array(g._g.exterior.coords))[:-1]
    R = [list(q) for q in ring]
    o = rnp.empty(x.shape, dtype=object)
    for pos in rnp.ndindex(*x.shape):
        px, py = x[pos], y[pos]
        odd = False
        for a, b in zip(R, R[1:] + R[:1]):
            c = (b[0] - a[0]) * (py - a[1]) - (b[1] - a[1]) * (px - a[0])
            up = core.sand(a[1] <= py, b[1] > py, c > 0)
            down = core.sand(a[1] > py, b[1] <= py, c < 0)
            hit = core.sor(up, down)
            odd = core.sor(core.sand(odd, core.snot(hit)), core.sand(core.snot(odd), hit))
        o[pos] = odd
    return symnp.wrap(o, rnp.dtype(bool))


class Gmsh:
    """Stand-in of gmsh: plane surfaces bounded by loops of lines through points, meshed by any triangulation
    of their nodes whose boundary is these loops (the nodes gmsh would add inside are left out)."""

    class Error(Exception):
        pass

    def __init__(self):
        self.open = 0
        self.fault = None
        self.reset()

    def reset(self):
        self.pts, self.lines, self.loops, self.surfs = {}, {}, {}, {}
        self.sync, self.recombine, self.nodes, self.elems = [], set(), None, None

    def need(self):
        if not self.open:
            raise Gmsh.Error("Gmsh has not been initialized")

    def op(self, path, *a, **k):
        name = path.split(".")[-1].replace("_", "").lower()
        if name == "initialize":
            self.open += 1
            self.reset()
            return
        self.need()
        if name == self.fault:
            raise Gmsh.Error(f"injected fault in {name}")
        if name == "finalize":
            self.open = 0
            return
        if name == "isinitialized":
            return int(self.open > 0)
        if name == "clear":
            return self.reset()
        if name in ("setnumber", "optimize", "removeduplicatenodes", "renumbernodes", "setstring"):
            return
        if name == "addpoint":
            x, y, z = a[:3]
            self.pts[len(self.pts) + 1] = (x, y, z)
            return len(self.pts)
        if name == "addline":
            self.lines[len(self.lines) + 1] = (int(a[0]), int(a[1]))
            return len(self.lines)
        if name == "addcurveloop":
            ends = [self.lines[abs(int(t))][:: 1 if t > 0 else -1] for t in a[0]]
            if any(p[1] != q[0] for p, q in zip(ends, ends[1:] + ends[:1])):
                raise Gmsh.Error("Curve loop is wrong")
            self.loops[len(self.loops) + 1] = [e[0] for e in ends]
            return len(self.loops)
        if name == "addplanesurface":
            self.surfs[len(self.surfs) + 1] = [self.loops[int(t)] for t in a[0]]
            return len(self.surfs)
        if name == "cut":
            obj, tool = a[:2]
            out = []
            for d, t in obj:
                shell = self.surfs.pop(int(t))
                holes = [l for _, h in tool for l in self.surfs[int(h)]]
                out.append(shell + holes)
            for _, h in tool:
                self.surfs.pop(int(h))
            tags = []
            for o in out:
                n = max(self.surfs, default=0) + 1
                self.surfs[n] = o
                tags.append((2, n))
            return tags, []
        if name == "synchronize":
            self.sync = list(self.surfs)
            return
        if name == "setrecombine":
            self.recombine.add(int(a[1]))
            return
        if name == "generate":
            return self.generate(*a)
        if name == "getnodes":
            tags = sorted(self.nodes)
            return wrap(rnp.array(tags)), asarray([c for t in tags for c in self.pts[t]]), wrap(rnp.zeros(0))
        if name == "getelements":
            ts = sorted(self.elems)
            return wrap(rnp.array(ts)), [wrap(rnp.arange(len(self.elems[t]))) for t in ts], [wrap(rnp.array([v for e in self.elems[t] for v in e])) for t in ts]
        if name == "getelementproperties":
            n = {1: 2, 2: 3, 3: 4, 15: 1}[int(a[0])]
            return ("", 2, 1, n, [], n)
        raise Unsupported(f"gmsh {path}")

    def generate(self, dim=2):
        self.nodes, self.elems = set(), {}
        for t in self.sync:
            loops = self.surfs[t]
            ring = list(loops[0])
            self.nodes |= {v for l in loops for v in l}
            tri = []
            work = list(ring)
            if len(loops) > 1:
                # with holes, a fan around an added node
                work = []
                c = max(self.pts) + 1
                F = [self.pts[v] for l in loops for v in l]
                self.pts[c] = tuple(sum(p[k] for p in F) / len(F) for k in range(3))
                self.nodes.add(c)
                tri = [[c, a, b] for l in loops for a, b in zip(l, l[1:] + l[:1])]
            # fan from the last node, skipping triangles with a repeated node
            while len(work) > 2:
                for i in range(len(work)):
                    c = [work[i - 1], work[i], work[(i + 1) % len(work)]]
                    if len(set(c)) == 3:
                        tri.append(c)
                        work.pop(i)
                        break
                else:
                    break
            for l in loops:
                self.elems.setdefault(1, []).extend(zip(l, l[1:] + l[:1]))
                self.elems.setdefault(15, []).extend((v,) for v in l)
            if t in self.recombine:
                rest = []
                while tri:
                    c = tri.pop(0)
                    hit = None
                    for d in tri:
                        e = set(c) & set(d)
                        if len(e) == 2:
                            hit = d
                            break
                    if hit is None:
                        rest.append(c)
                        continue
                    tri.remove(hit)
                    o = [v for v in hit if v not in c][0]
                    k = [i for i in range(3) if c[i] not in hit][0]
                    self.elems.setdefault(3, []).append((c[k], c[(k + 1) % 3], o, c[(k + 2) % 3]))
                tri = rest
            if tri:
                self.elems.setdefault(2, []).extend(tuple(c) for c in tri)


GMSH = Gmsh()


class gmsh_fault:
    """Within: the given call of gmsh fails."""

    def __init__(self, W, name):
        self.W, self.name = W, name

    def __enter__(self):
        if self.W.sym:
            GMSH.fault = self.name
            return
        import gmsh

        owner = {"generate": gmsh.model.mesh, "synchronize": gmsh.model.geo, "addline": gmsh.model.geo, "addpoint": gmsh.model.geo, "getelements": gmsh.model.mesh, "getnodes": gmsh.model.mesh}[self.name]
        names = [n for n in dir(owner) if n.replace("_", "").lower() == self.name]
        self.old = [(owner, n, owner.__dict__[n]) for n in names]

        def fail(*a, **k):
            raise RuntimeError("injected fault")

        for n in names:
            setattr(owner, n, staticmethod(fail))

    def __exit__(self, *a):
        if self.W.sym:
            GMSH.fault = None
            return
        for o, n, f in self.old:
            setattr(o, n, f)


def gmsh_open(W):
    if W.sym:
        return GMSH.open > 0
    import gmsh

    return bool(gmsh.isInitialized())


class _G:
    def __init__(self, path):
        self._p = path

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return _G(f"{self._p}.{n}")

    def __call__(self, *a, **k):
        return GMSH.op(self._p, *a, **k)


def require_package(*a, **k):
    return lambda f: f


def modules():
    m = {}

    def mod(name, **kw):
        x = types.ModuleType(name)
        x.__dict__.update(kw)
        m[name] = x
        return x

    import scipy.spatial as ss

    sp = mod("scipy.spatial", KDTree=KDTree, cKDTree=KDTree, Voronoi=_Voronoi(ss.Voronoi))
    tr = mod("scipy.spatial.transform", Rotation=Rotation)
    sp.transform = tr
    it = mod("scipy.interpolate", LinearNDInterpolator=LinearNDInterpolator, NearestNDInterpolator=NearestNDInterpolator)
    mod("scipy", spatial=sp, interpolate=it)
    mod("pyrequire", require_package=require_package)
    sh = types.ModuleType("shapely")

    def ga(n):
        if n.startswith("__"):
            raise AttributeError(n)
        import shapely

        if n == "Polygon":
            return _polygon
        if n == "get_coordinates":
            return _get_coordinates
        if n == "contains_xy":
            return _contains_xy
        if n in ("contains", "covers", "contains_properly", "within", "covered_by", "intersects", "disjoint"):
            return lambda a, b: getattr(a, n)(b)
        if n == "area":
            return lambda g: g.area
        return _Conc(getattr(shapely, n))

    sh.__getattr__ = ga
    m["shapely"] = sh
    def irregular(*a, **k):
        from pyvista.core.cell import _get_irregular_cells as f

        return tuple(wrap(rnp.array(c)) for c in f(*a, **k))

    pc = types.ModuleType("pyvista.core.cell")
    pc._get_irregular_cells = irregular

    def pcell(n):
        import pyvista.core.cell as c

        return getattr(c, n)

    pc.__getattr__ = pcell
    m["pyvista.core.cell"] = pc
    g = types.ModuleType("gmsh")

    def gget(n):
        if n.startswith("__"):
            raise AttributeError(n)
        return _G("gmsh." + n)

    g.__getattr__ = gget
    m["gmsh"] = g
    return m
