"""pyvista for symbolic geometry.

A mesh is a *real* pyvista object holding the topology (cells, types, dimensions) with
placeholder coordinates, plus arrays of possibly symbolic values for the coordinates and the
point/cell data.  Filters that look only at the topology are run for real, by VTK, on the
placeholder mesh with identifiers attached, and the symbolic arrays follow the identifiers.
Filters that look at coordinates are interpreted symbolically (merging of coincident points,
translation, cell sizes, centres, ...) or, on fully concrete meshes, run for real.
"""
from __future__ import annotations

import json
from fractions import Fraction

import numpy as rnp
import pyvista as rpv

from . import core, symnp
from .core import Num, SBool, Unsupported, is_sym, sand, smax, smin, snot, sor
from .symnp import SA, asarray, has_sym, wrap

F8 = symnp.F8
PID, CID, HOT = "__symx_pid", "__symx_cid", "__symx_hot"
STEP = 1_000_000
GHOST = "vtkGhostType"


def plain(x):
    """Concrete Python/numpy version of a value (forks on symbolic integers/booleans)."""
    if isinstance(x, SA):
        if not has_sym(x):
            return x.numeric()
        k = x._ld.kind
        if k == "b":
            return rnp.array([bool(e) for e in x.view(rnp.ndarray).flat], dtype=bool).reshape(x.shape)
        if k in "iu":
            return rnp.array([int(e) for e in x.view(rnp.ndarray).flat], dtype=x._ld).reshape(x.shape)
        raise Unsupported("a real-valued symbolic array reaches VTK")
    if type(x) is Num:
        return int(x)
    if type(x) is SBool:
        return bool(x)
    if isinstance(x, list):
        return [plain(e) for e in x]
    if type(x) is tuple:
        return tuple(plain(e) for e in x)
    if isinstance(x, dict):
        return {plain(k): plain(v) for k, v in x.items()}
    return x


def _placeholder(n):
    i = rnp.arange(n, dtype=float)
    return rnp.column_stack((i * 3.0 + 1.0, i * i * 0.125 + 0.5, i * 0.5))


def _pts(points):
    p = asarray(points)
    if p.ndim == 1 and p.size == 0:
        p = p.reshape(0, 3)
    if p.ndim == 1 and p.size == 3:
        p = p.reshape(1, 3)
    if p.ndim != 2 or (p.shape[1] != 3):
        if p.ndim == 2 and p.shape[1] == 2:
            raise ValueError("shape mismatch: points must have 3 columns")
        raise ValueError("bad points")
    if p._ld.kind != "f":
        p = p.astype(F8)
    return p


class Attrs:
    """cell_data / point_data."""

    def __init__(self, mesh, kind):
        self._m = mesh
        self._k = kind
        self._d = {}
        self.active_scalars_name = None

    def _n(self):
        return self._m.n_cells if self._k == "cell" else self._m.n_points

    def __contains__(self, k):
        return k in self._d

    def __getitem__(self, k):
        return self._d[k]

    def __setitem__(self, k, v):
        self._set(k, v, False)

    def set_array(self, v, name, deep_copy=False):
        self._set(name, v, deep_copy)

    def _set(self, k, v, copy):
        if v is None:
            raise TypeError("``data`` cannot be None.")
        shared = isinstance(v, SA)
        a = asarray(v)
        n = self._n()
        if a.ndim == 0:
            o = rnp.empty(n, dtype=object)
            o[...] = a.item()
            a = wrap(o, a._ld)
        if a.shape[0] != n:
            raise ValueError(f"Invalid array shape. Array '{k}' has length ({a.shape[0]}) but a length of ({n}) was expected.")
        if a.size == 0 and any(a.shape):
            raise ValueError("Invalid array shape. Empty arrays are not allowed.")
        if copy or not shared:
            a = a.copy()
        self._d[k] = a
        if self.active_scalars_name is None:
            self.active_scalars_name = k

    def update(self, other, copy=True):
        for k, v in list(other.items()):
            self._set(k, v, copy)

    def pop(self, k, *d):
        if d:
            return self._d.pop(k, *d)
        return self._d.pop(k)

    def remove(self, k):
        del self._d[k]

    __delitem__ = remove

    def clear(self):
        self._d.clear()

    def get(self, k, d=None):
        return self._d.get(k, d)

    def get_array(self, k):
        return self._d[k]

    def setdefault(self, k, v):
        if k not in self._d:
            self[k] = v
        return self._d[k]

    def items(self):
        return list(self._d.items())

    def keys(self):
        return list(self._d.keys())

    def values(self):
        return list(self._d.values())

    def __iter__(self):
        return iter(list(self._d.keys()))

    def __len__(self):
        return len(self._d)

    def __bool__(self):
        return bool(self._d)


class FieldData(dict):
    """field_data: only the user dictionary is tracked."""

    def __init__(self, mesh):
        super().__init__()
        self._m = mesh

    def __contains__(self, k):
        if k == "_PYVISTA_USER_DICT":
            return self._m._ud is not None
        return dict.__contains__(self, k)

    def __setitem__(self, k, v):
        if k == "_PYVISTA_USER_DICT":
            self._m._ud = UserDict(json.loads(v) if isinstance(v, str) else v)
            return
        dict.__setitem__(self, k, v)

    def pop(self, k, *d):
        if k == "_PYVISTA_USER_DICT":
            self._m._ud = None
            return None
        return dict.pop(self, k, *d)

    def __delitem__(self, k):
        if k == "_PYVISTA_USER_DICT":
            self._m._ud = None
            return
        dict.__delitem__(self, k)

    def keys(self):
        ks = list(dict.keys(self))
        return ks + (["_PYVISTA_USER_DICT"] if self._m._ud is not None else [])

    def __len__(self):
        return len(self.keys())

    def __bool__(self):
        return len(self) > 0

    def __iter__(self):
        return iter(self.keys())


def _jsonable(x):
    if is_sym(x) or x is None or isinstance(x, (str, bool, int, float)):
        return x if not isinstance(x, rnp.generic) or isinstance(x, (str, float)) else _bad(x)
    if isinstance(x, dict):
        return {(k if isinstance(k, str) else str(k)): _jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_jsonable(v) for v in x]
    return _bad(x)


def _bad(x):
    raise TypeError(f"Object of type {type(x).__name__} is not JSON serializable")


class UserDict(dict):
    """mesh.user_dict: values must be serialisable, and are serialised when set."""

    def __setitem__(self, k, v):
        _jsonable(v)
        dict.__setitem__(self, k, v)

    def update(self, *a, **k):
        d = dict(*a, **k)
        _jsonable(d)
        dict.update(self, d)


_SYM = []


def _ud_out(x):
    if is_sym(x):
        _SYM.append(x)
        return {"__sym__": len(_SYM) - 1}
    if isinstance(x, dict):
        return {str(k): _ud_out(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_ud_out(v) for v in x]
    return x


def _ud_in(x):
    if isinstance(x, dict):
        if set(x) == {"__sym__"}:
            return _SYM[x["__sym__"]]
        return {k: _ud_in(v) for k, v in x.items()}
    if isinstance(x, list):
        return [_ud_in(v) for v in x]
    return x


class Cell:
    def __init__(self, mesh, i):
        self._m, self._i = mesh, i
        self.point_ids = list(mesh._r.get_cell(i).point_ids)
        self.type = rpv.CellType(int(mesh._r.GetCellType(i)))

    @property
    def points(self):
        return self._m.points[rnp.array(self.point_ids, dtype=int)]

    @property
    def n_points(self):
        return len(self.point_ids)

    @property
    def dimension(self):
        return self._m._r.get_cell(self._i).dimension

    @property
    def center(self):
        return self._m.extract_cells(self._i).cell_centers().points[0]

    @property
    def bounds(self):
        p = self.points
        return tuple(v for a in range(3) for v in (symnp.amin(p[:, a]), symnp.amax(p[:, a])))

    def __getattr__(self, n):
        raise Unsupported(f"cell.{n}")


class DataSet:
    _real_type = rpv.DataSet

    def _init(self, r, p):
        self._r = r
        self._p = p
        self.cell_data = Attrs(self, "cell")
        self.point_data = Attrs(self, "point")
        self._ud = None
        self.field_data = FieldData(self)

    # ---- conversions ---------------------------------------------------
    def _to_real(self, points=None, tag=None, data=True):
        r = self._r.copy(deep=True)
        r.clear_data()
        if points is None:
            points = _placeholder(len(self._p)) if has_sym(self._p) else self._p.numeric()
        if not isinstance(r, (rpv.ImageData, rpv.RectilinearGrid)):
            r.points = points
        if data:
            for nm, at, ra in (("cell", self.cell_data, r.cell_data), ("point", self.point_data, r.point_data)):
                for k, v in at._d.items():
                    if k == GHOST:
                        a = plain(v)
                    elif has_sym(v):
                        a = rnp.zeros(v.shape, dtype=v._ld)
                    else:
                        a = v.numeric()
                    if a.dtype.kind == "O":
                        raise Unsupported("object array in VTK")
                    ra[k] = a
            if self._ud is not None:
                r.user_dict = _ud_out(dict(self._ud))
        if tag is not None:
            if r.n_points:
                r.point_data[PID] = rnp.arange(r.n_points) + tag * STEP
            if r.n_cells:
                r.cell_data[CID] = rnp.arange(r.n_cells) + tag * STEP
        return r

    @staticmethod
    def _from_real(r, sources=None, merged=False):
        """Wrap a VTK result; `sources` is the list of symbolic meshes the ids refer to.

        merged: coincident points were merged.  The place of a point follows from its placeholder
        position, its data from the weights VTK itself applied to a one-hot array."""
        if not isinstance(r, rpv.DataSet):
            if r is None or isinstance(r, (int, float, str, bool, rnp.generic)):
                return r
            if isinstance(r, rnp.ndarray):
                return wrap(rnp.array(r))
            if isinstance(r, (tuple, list)) and not isinstance(r, rpv.MultiBlock):
                return type(r)(DataSet._from_real(x, sources) for x in r) if type(r) in (tuple, list) else r
            raise Unsupported(f"VTK result {type(r).__name__}")
        out = {}
        for nm, ra in (("cell", r.cell_data), ("point", r.point_data)):
            out[nm] = {k: rnp.array(ra[k]) for k in ra.keys()}
        cid = out["cell"].pop(CID, None)
        pid = out["point"].pop(PID, None)
        hot = out["point"].pop(HOT, None)
        out["cell"].pop(PID, None)
        out["point"].pop(CID, None)
        ud = None
        if "_PYVISTA_USER_DICT" in r.field_data.keys():
            ud = _ud_in(json.loads(json.dumps(dict(r.user_dict))))
        pts = rnp.array(r.points)
        t = r.copy(deep=True)
        t.clear_data()
        m = _wrap_type(t)
        n = len(pts)
        if sources is not None and any(has_sym(s._p) for s in sources):
            if pid is None and n:
                raise Unsupported("the filter creates points from symbolic coordinates")
            o = rnp.empty((n, 3), dtype=object)
            if merged:
                allp = rnp.concatenate([s._p.view(rnp.ndarray) for s in sources])
                for i in range(n):
                    o[i] = allp[int(round((float(pts[i][0]) - 1.0) / 3.0))]
            else:
                for i in range(n):
                    s, j = divmod(int(pid[i]), STEP)
                    o[i] = sources[s]._p.view(rnp.ndarray)[j]
            p = wrap(o, F8)
        else:
            p = wrap(pts.astype(float))
        m._init(t, p)
        for nm, at, ids in (("cell", m.cell_data, cid), ("point", m.point_data, pid)):
            for k, v in out[nm].items():
                src = None
                if sources is not None:
                    src = [(s.cell_data if nm == "cell" else s.point_data)._d.get(k) for s in sources]
                if src is None or not any(x is not None and has_sym(x) for x in src) or k == GHOST:
                    at._d[k] = wrap(v)
                    continue
                if ids is None:
                    raise Unsupported("symbolic data through a filter that drops identifiers")
                if nm == "point" and merged and hot is not None and hot.ndim == 2:
                    if any(x is None for x in src):
                        raise Unsupported("partial symbolic point data in a merge")
                    alld = rnp.concatenate([x.view(rnp.ndarray) for x in src])
                    o = rnp.empty(v.shape, dtype=object)
                    for i in range(len(v)):
                        w = [(j, round(float(c), 9)) for j, c in enumerate(hot[i]) if c != 0.0]
                        o[i] = alld[w[0][0]] if len(w) == 1 and w[0][1] == 1.0 else sum(c * alld[j] for j, c in w)
                    at._d[k] = wrap(o, src[0]._ld)
                    continue
                o = rnp.empty(v.shape, dtype=object)
                ld = None
                for i in range(len(v)):
                    s, j = divmod(int(ids[i]), STEP)
                    o[i] = src[s].view(rnp.ndarray)[j]
                    ld = src[s]._ld
                at._d[k] = wrap(o, ld)
        if ud is not None:
            m._ud = UserDict(ud)
        return m

    def _run(self, fn, points=None, merged=False):
        r = self._to_real(points=points, tag=0)
        if merged:
            _one_hot([self], [r])
        return DataSet._from_real(fn(r), [self], merged)

    def _concrete(self):
        return not has_sym(self._p)

    # ---- attributes -----------------------------------------------------
    @property
    def points(self):
        return self._p

    @points.setter
    def points(self, v):
        v = _pts(v)
        if len(v) != len(self._p):
            if len(self._r.point_data.keys()) or not isinstance(self._r, rpv.PolyData):
                raise Unsupported("changing the number of points")
            self._r.points = _placeholder(len(v))
        self._p = v

    @property
    def user_dict(self):
        if self._ud is None:
            self._ud = UserDict()
        return self._ud

    @user_dict.setter
    def user_dict(self, v):
        if v is None:
            self._ud = None
            return
        _jsonable(v)
        self._ud = UserDict(v)

    @property
    def n_points(self):
        return len(self._p)

    @property
    def n_cells(self):
        return self._r.n_cells

    number_of_points = n_points
    number_of_cells = n_cells

    @property
    def bounds(self):
        out = []
        for a in range(3):
            c = self._p[:, a]
            out += [symnp.amin(c), symnp.amax(c)]
        return tuple(out)

    @property
    def center(self):
        b = self.bounds
        return tuple((b[2 * a] + b[2 * a + 1]) * 0.5 for a in range(3))

    @property
    def length(self):
        b = self.bounds
        return core.norm([b[1] - b[0], b[3] - b[2], b[5] - b[4]])

    @property
    def cell(self):
        for i in range(self.n_cells):
            yield Cell(self, i)

    def get_cell(self, i):
        return Cell(self, int(i))

    @property
    def array_names(self):
        return self.point_data.keys() + self.cell_data.keys()

    def __getitem__(self, k):
        if k in self.point_data:
            return self.point_data[k]
        return self.cell_data[k]

    def __setitem__(self, k, v):
        n = len(asarray(v))
        if n == self.n_points:
            self.point_data[k] = v
        else:
            self.cell_data[k] = v

    def clear_data(self):
        self.cell_data.clear()
        self.point_data.clear()
        self._ud = None

    def clear_cell_data(self):
        self.cell_data.clear()

    def clear_point_data(self):
        self.point_data.clear()

    def clear_field_data(self):
        self._ud = None

    def set_active_scalars(self, name, preference="cell"):
        if name is not None and name not in self.cell_data and name not in self.point_data:
            raise KeyError(name)
        return None, None

    def copy(self, deep=True):
        m = type(self).__new__(type(self))
        m._init(self._r.copy(deep=deep) if deep else self._r.copy(deep=False), self._p.copy() if deep else self._p)
        for a, b in ((self.cell_data, m.cell_data), (self.point_data, m.point_data)):
            for k, v in a._d.items():
                b._d[k] = v.copy() if deep else v
        if self._ud is not None:
            m._ud = UserDict(_ud_in(json.loads(json.dumps(_ud_out(dict(self._ud))))))
        return m

    def copy_meta_from(self, *a, **k):
        pass

    def copy_structure(self, o):
        raise Unsupported("copy_structure")

    def deep_copy(self, o):
        raise Unsupported("deep_copy")

    def __eq__(self, o):
        return self is o

    __hash__ = object.__hash__

    # ---- coordinates ------------------------------------------------------
    def translate(self, vec, transform_all_input_vectors=False, inplace=False):
        v = asarray(vec)
        if v.shape != (3,):
            raise ValueError("Vector must be of length three.")
        m = self if inplace else self.copy()
        m._p = (m._p + v).astype(F8)
        return m

    def scale(self, xyz, transform_all_input_vectors=False, inplace=False, point=None):
        s = asarray(xyz)
        c = asarray((0.0, 0.0, 0.0)) if point is None else asarray(point)
        m = self if inplace else self.copy()
        m._p = ((m._p - c) * s + c).astype(F8)
        return m

    def rotate_vector(self, vector, angle, point=None, transform_all_input_vectors=False, inplace=False):
        m = self if inplace else self.copy()
        v = [x for x in asarray(vector)]
        n = core.norm(v)
        u = [symnp.UF["divide"](x, n) for x in v]
        c0 = asarray((0.0, 0.0, 0.0)) if point is None else asarray(tuple(point))
        rad = angle * (rnp.pi / 180.0)
        c, s = core.trig("cos", rad), core.trig("sin", rad)
        p = m._p - c0
        out = rnp.empty(p.shape, dtype=object)
        for i, q in enumerate(p.view(rnp.ndarray)):
            dot = u[0] * q[0] + u[1] * q[1] + u[2] * q[2]
            cr = (u[1] * q[2] - u[2] * q[1], u[2] * q[0] - u[0] * q[2], u[0] * q[1] - u[1] * q[0])
            for a in range(3):
                out[i, a] = q[a] * c + cr[a] * s + u[a] * dot * (1.0 - c)
        m._p = (wrap(out, F8) + c0).astype(F8)
        return m

    def rotate_x(self, angle, point=None, inplace=False, **k):
        return self.rotate_vector((1.0, 0.0, 0.0), angle, point, inplace=inplace)

    def rotate_y(self, angle, point=None, inplace=False, **k):
        return self.rotate_vector((0.0, 1.0, 0.0), angle, point, inplace=inplace)

    def rotate_z(self, angle, point=None, inplace=False, **k):
        return self.rotate_vector((0.0, 0.0, 1.0), angle, point, inplace=inplace)

    def _classes(self, pts, tol=None, relative=False):
        """Classes of (symbolic) points that are merged, by forking; returns representative ids.

        Points are merged when they are equal, or, when the check asks for it (NEAR), when they are within `tol`,
        times the diagonal of the bounding box if `relative` (which is what vtkStaticCleanUnstructuredGrid does)."""
        P = pts.view(rnp.ndarray)
        n = len(P)
        near = NEAR["on"] and tol
        if near:
            tol2 = Fraction(float(tol)) ** 2
            if relative and n:
                L2 = 0.0
                for a in range(3):
                    d = symnp.amax(pts[:, a]) - symnp.amin(pts[:, a])
                    L2 = L2 + d * d
                tol2 = L2 * tol2 if is_sym(L2) else Fraction(float(L2)) * tol2
        cls = list(range(n))
        reps = []
        for i in range(n):
            for j in reps:
                if near:
                    d2 = 0.0
                    for a in range(3):
                        d = P[i][a] - P[j][a]
                        d2 = d2 + d * d
                    if not is_sym(d2) and not is_sym(tol2):
                        c = Fraction(float(d2)) <= tol2
                    else:
                        c = d2 <= tol2
                else:
                    c = sand(*[symnp.UF["equal"](P[i][a], P[j][a]) for a in range(3)])
                if c is False or (not is_sym(c) and not c):
                    continue
                if bool(c):
                    cls[i] = j
                    break
            else:
                reps.append(i)
        return cls

    def _merge_placeholder(self, pts, tol=None, relative=False):
        cls = self._classes(pts, tol, relative)
        ph = _placeholder(len(pts))
        return ph[rnp.array(cls, dtype=int)] if len(pts) else ph

    def cell_centers(self, vertex=True, **k):
        r = self._to_real(tag=0, data=True)
        out = []
        empty = 0
        ids = []
        if self._concrete():
            return DataSet._from_real(r.cell_centers(), [self])
        for i in range(self.n_cells):
            t = rpv.CellType(int(r.GetCellType(i))).name
            if t == "EMPTY_CELL":
                empty += 1
                continue
            cp = rnp.array(r.get_cell(i).point_ids, dtype=int)
            P = self._p[cp]
            ids.append(i)
            if t in ("PIXEL", "VOXEL"):
                # VTK only looks at the first corner and its neighbours
                nb = (1, 2) if t == "PIXEL" else (1, 2, 4)
                out.append([P[0][a] + sum((P[j][a] - P[0][a]) * 0.5 for j in nb) for a in range(3)])
            elif t in ("VERTEX", "LINE", "TRIANGLE", "QUAD", "TETRA", "HEXAHEDRON", "WEDGE"):
                out.append([symnp.mean(P[:, a]) for a in range(3)])
            elif t == "POLYHEDRON":
                out.append([(symnp.amin(P[:, a]) + symnp.amax(P[:, a])) * 0.5 for a in range(3)])
            elif t in ("POLY_LINE", "POLYGON", "PYRAMID") and False:
                pass
            else:
                raise Unsupported(f"cell centre of {t}")
        o = rnp.empty((len(out), 3), dtype=object)
        for i, x in enumerate(out):
            o[i] = x
        m = PolyData(wrap(o, F8))
        for k, v in self.cell_data._d.items():
            m.point_data[k] = v[rnp.array(ids, dtype=int)]
        return m

    def find_containing_cell(self, point):
        """Cell (convex, in a coordinate plane) that holds each point, or -1."""
        pts = asarray(point)
        if self._concrete() and not has_sym(pts):
            return DataSet._from_real(self._to_real(tag=0).find_containing_cell(rnp.asarray(pts.numeric())), [self])
        one = pts.ndim == 1
        Q = [list(q) for q in (pts.view(rnp.ndarray)[None] if one else pts.view(rnp.ndarray))]
        P = self._p.view(rnp.ndarray)
        flat = [a for a in range(3) if all(not is_sym(x - P[0][a]) and float(x - P[0][a]) == 0.0 for x in P[:, a])]
        r = self._to_real(tag=0)
        if all(rpv.CellType(int(r.GetCellType(i))).name in ("VERTEX", "POLY_VERTEX", "EMPTY_CELL") for i in range(self.n_cells)):
            return -1 if one else wrap(rnp.full(len(Q), -1))
        if not flat:
            out = []
            for q in Q:
                out.append(next((i for i in range(self.n_cells) if self._holds(r, i, q)), -1))
            return out[0] if one else wrap(rnp.array(out, dtype=int))
        if len(flat) != 1:
            raise Unsupported("find_containing_cell out of a coordinate plane")
        u, v = [a for a in range(3) if a != flat[0]]
        cells = []
        for i in range(self.n_cells):
            t = rpv.CellType(int(r.GetCellType(i))).name
            c = list(r.get_cell(i).point_ids)
            if t == "PIXEL":
                c = [c[0], c[1], c[3], c[2]]
            elif t not in ("TRIANGLE", "QUAD", "POLYGON", "EMPTY_CELL", "VERTEX", "LINE"):
                raise Unsupported(f"find_containing_cell in {t}")
            cells.append(c if len(c) > 2 else [])
        out = []
        for q in Q:
            hit = -1
            plane = symnp.UF["equal"](q[flat[0]], P[0][flat[0]])
            for i, c in enumerate(cells):
                if not c:
                    continue
                pos, neg = [plane], [plane]
                for a, b in zip(c, c[1:] + c[:1]):
                    a, b = P[a], P[b]
                    k = (b[u] - a[u]) * (q[v] - a[v]) - (b[v] - a[v]) * (q[u] - a[u])
                    pos.append(symnp.UF["greater_equal"](k, 0.0))
                    neg.append(symnp.UF["less_equal"](k, 0.0))
                if bool(symnp.UF["logical_or"](sand(*pos), sand(*neg))):
                    hit = i
                    break
            out.append(hit)
        return out[0] if one else wrap(rnp.array(out, dtype=int))

    def _holds(self, r, i, q):
        """Whether a convex 3D cell holds a point."""
        P = self._p.view(rnp.ndarray)
        ids = list(r.get_cell(i).point_ids)
        if r.get_cell(i).dimension != 3:
            raise Unsupported("find_containing_cell out of a coordinate plane")
        mid = [sum((P[j][a] for j in ids), 0.0) * (1.0 / len(ids)) for a in range(3)]
        for f in self._solid_faces(r, i):
            F = [list(P[j]) for j in f]
            n = _unit_normal(F)
            side, at = _dot(n, [x - y for x, y in zip(mid, F[0])]), _dot(n, [x - y for x, y in zip(q, F[0])])
            if bool(symnp.UF["greater"](side, 0.0)):
                out = symnp.UF["less"](at, 0.0)
            else:
                out = symnp.UF["greater"](at, 0.0)
            if bool(out):
                return False
        return True

    def _solid_faces(self, r, i):
        """Faces (node ids) of a cell: the cell itself in 2D."""
        t = rpv.CellType(int(r.GetCellType(i))).name
        c = r.get_cell(i)
        if t == "EMPTY_CELL":
            return []
        if t in ("TRIANGLE", "QUAD", "POLYGON"):
            return [list(c.point_ids)]
        if t == "PIXEL":
            p = list(c.point_ids)
            return [[p[0], p[1], p[3], p[2]]]
        if c.dimension != 3:
            raise Unsupported(f"faces of {t}")
        out = []
        for f in c.faces:
            p = list(f.point_ids)
            out.append([p[0], p[1], p[3], p[2]] if f.type.name == "PIXEL" else p)
        return out

    def find_cells_intersecting_line(self, pointa, pointb, tolerance=0.0):
        """Cells with a face (an edge for lines in a coordinate plane) that the segment crosses.

        Contacts with the rim of a face are left to VTK's tolerance: exact here."""
        a, b = asarray(pointa), asarray(pointb)
        if self._concrete() and not has_sym((a, b)):
            r = self._to_real(tag=0)
            return wrap(rnp.array(r.find_cells_intersecting_line(plain(a), plain(b), tolerance=plain(tolerance))))
        a, b = list(a.view(rnp.ndarray)), list(b.view(rnp.ndarray))
        r = self._to_real(tag=0)
        P = self._p.view(rnp.ndarray)
        hits = []
        for i in range(self.n_cells):
            t = rpv.CellType(int(r.GetCellType(i))).name
            if t in ("LINE", "POLY_LINE"):
                ids = list(r.get_cell(i).point_ids)
                hit = any(_segments_cross(a, b, list(P[p]), list(P[q])) for p, q in zip(ids[:-1], ids[1:]))
            else:
                hit = any(_crosses_face(a, b, [list(P[j]) for j in f]) for f in self._solid_faces(r, i))
            if hit:
                hits.append(i)
        return wrap(rnp.array(hits, dtype=int))

    def compute_normals(self, cell_normals=True, point_normals=True, **k):
        if self._concrete():
            return DataSet._from_real(self._to_real(tag=0).compute_normals(cell_normals=cell_normals, point_normals=point_normals, **k), [self])
        if point_normals or set(k) - {"progress_bar", "inplace"} or k.get("inplace"):
            raise Unsupported("compute_normals")
        m = self.copy()
        if cell_normals:
            P = self._p.view(rnp.ndarray)
            o = rnp.empty((self.n_cells, 3), dtype=object)
            for i in range(self.n_cells):
                (f,) = self._solid_faces(self._r, i)
                o[i] = _unit_normal([list(P[j]) for j in f])
            m.cell_data._d["Normals"] = wrap(o, F8)
        return m

    def _cell_points(self, r, i):
        return [list(self._p.view(rnp.ndarray)[j]) for j in r.get_cell(i).point_ids]

    def compute_cell_sizes(self, length=True, area=True, volume=True, progress_bar=False, vertex_count=False):
        if self._concrete():
            return DataSet._from_real(
                self._to_real(tag=0).compute_cell_sizes(length=length, area=area, volume=volume), [self]
            )
        m = self.copy()
        r = self._r
        n = self.n_cells
        L, A, V = ([0.0] * n for _ in range(3))
        sub = lambda a, b: [x - y for x, y in zip(a, b)]

        def cross(a, b):
            return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]

        for i in range(n):
            t = rpv.CellType(int(r.GetCellType(i))).name
            if t == "EMPTY_CELL":
                continue
            P = self._cell_points(r, i)
            if t in ("LINE", "POLY_LINE"):
                if length:
                    s = 0.0
                    for a, b in zip(P[:-1], P[1:]):
                        s = s + core.norm(sub(a, b))
                    L[i] = s
            elif t in ("TRIANGLE", "QUAD", "POLYGON", "PIXEL"):
                if area:
                    if t == "PIXEL":
                        P = [P[0], P[1], P[3], P[2]]
                    comps = []
                    for a, b in zip(P[1:-1], P[2:]):
                        comps += cross(sub(a, P[0]), sub(b, P[0]))
                    A[i] = _opaque_size("area", comps)
            elif t in ("HEXAHEDRON", "VOXEL", "WEDGE", "TETRA", "PYRAMID", "POLYHEDRON"):
                if volume:
                    V[i] = _volume(t, P)
            else:
                raise Unsupported(f"size of {t}")
        for nm, on, arr in (("Length", length, L), ("Area", area, A), ("Volume", volume, V)):
            if on:
                o = rnp.empty(n, dtype=object)
                o[:] = arr
                m.cell_data._d[nm] = wrap(o, F8)
        return m

    # ---- topology filters (run by VTK) -------------------------------------
    def cast_to_unstructured_grid(self):
        if isinstance(self, UnstructuredGrid):
            return self.copy()
        return self._run(lambda r: r.cast_to_unstructured_grid())

    def cast_to_poly_points(self, pass_cell_data=False):
        raise Unsupported("cast_to_poly_points")

    def extract_cells(self, ind, invert=False, progress_bar=False, **k):
        ind = plain(ind) if isinstance(ind, (SA, Num, SBool, list, tuple)) else ind
        return self._run(lambda r: r.extract_cells(ind, invert=bool(invert), **k))

    def extract_cells_by_type(self, types, progress_bar=False):
        return self._run(lambda r: r.extract_cells_by_type(plain(types)))

    def extract_feature_edges(self, feature_angle=30.0, *, boundary_edges=True, non_manifold_edges=True, feature_edges=True, manifold_edges=True, clear_data=False, **k):
        if k.pop("inplace", False) or set(k) - {"progress_bar"}:
            raise Unsupported("extract_feature_edges(%s)" % ", ".join(k))
        if not self._concrete() and feature_edges:
            raise Unsupported("feature edges of symbolic coordinates")
        k = {"feature_angle": feature_angle, "boundary_edges": boundary_edges, "non_manifold_edges": non_manifold_edges, "feature_edges": feature_edges, "manifold_edges": manifold_edges}
        # vtkFeatureEdges merges coincident points
        m = self._run(lambda r: r.extract_feature_edges(**k), points=None if self._concrete() else self._merge_placeholder(self._p), merged=not self._concrete())
        if clear_data:
            m.clear_data()
        return m

    def extract_geometry(self, *a, **k):
        return self._run(lambda r: r.extract_geometry(*a, **k))

    def extract_surface(self, *a, **k):
        return self._run(lambda r: r.extract_surface(*a, **k))

    def separate_cells(self):
        return self._run(lambda r: r.separate_cells())

    def remove_cells(self, ind, inplace=False):
        m = self._run(lambda r: r.remove_cells(plain(ind)))
        return m

    def merge_points(self, *a, **k):
        if self._concrete():
            return self._run(lambda r: r.merge_points(*a, **k))
        tol = a[0] if a else k.pop("tolerance", None)
        return self._run(lambda r: r.merge_points(**k), points=self._merge_placeholder(self._p, tol), merged=True)

    def clean(self, *a, **k):
        if self._concrete():
            return self._run(lambda r: r.clean(*a, **k))
        tol, rel = k.pop("tolerance", None), isinstance(self._r, rpv.UnstructuredGrid)
        tol = a[0] if a else tol
        return self._run(lambda r: r.clean(**k), points=self._merge_placeholder(self._p, tol, rel), merged=True)

    def merge(self, grid=None, merge_points=True, **k):
        others = list(grid) if isinstance(grid, (list, tuple)) else [grid]
        tol = k.get("tolerance", None)
        return _merge_call([self] + others, lambda rs: rs[0].merge(rs[1:] if len(rs) > 2 else rs[1], merge_points=merge_points, **k), merge_points, tol)

    def __add__(self, o):
        if not isinstance(o, DataSet):
            return NotImplemented
        return _merge_call([self, o], lambda rs: rs[0] + rs[1], True)

    def append_polydata(self, *o, **k):
        return _merge_call([self, *o], lambda rs: rs[0].append_polydata(*rs[1:]), False)

    # ---- everything else: real pyvista on concrete meshes ----------------------
    def __getattr__(self, n):
        if n.startswith("__") or n in ("_r", "_p", "_ud"):
            raise AttributeError(n)
        a = getattr(type(self._r), n, None)
        if a is None and not hasattr(self._r, n):
            raise AttributeError(n)
        if not callable(a):
            if n in TOPO:
                return _topo(getattr(self._r, n))
            if self._concrete():
                return DataSet._from_real(getattr(self._to_real(), n))
            raise Unsupported(f"{type(self).__name__}.{n} with symbolic coordinates")
        if n in TOPO_M:
            return getattr(self._r, n)

        def call(*args, **kw):
            if not self._concrete():
                raise Unsupported(f"{type(self).__name__}.{n}() with symbolic coordinates")
            return DataSet._from_real(getattr(self._to_real(tag=0), n)(*_real_args(args), **_real_args(kw)), [self])

        return call


def _topo(x):
    if isinstance(x, rnp.ndarray):
        return wrap(rnp.array(x))
    if type(x) is tuple and x and all(isinstance(v, rnp.ndarray) for v in x):
        return tuple(_topo(v) for v in x)
    if isinstance(x, dict):
        return {k: _topo(v) for k, v in x.items()}
    return x


def _real_args(x):
    if isinstance(x, DataSet):
        if not x._concrete():
            raise Unsupported("symbolic mesh given to VTK")
        return x._to_real()
    if isinstance(x, SA):
        return plain(x)
    if isinstance(x, dict):
        return {k: _real_args(v) for k, v in x.items()}
    if type(x) in (list, tuple):
        return type(x)(_real_args(v) for v in x)
    if type(x) is Num and x.k == "f":
        raise Unsupported("symbolic real given to VTK")
    return plain(x)


TOPO = {
    "dimensions", "celltypes", "cells", "offset", "cell_connectivity", "lines", "faces", "n_lines", "n_faces",
    "n_faces_strict", "n_verts", "verts", "n_strips", "strips", "irregular_faces", "regular_faces", "polyhedron_faces",
    "polyhedron_face_locations", "cells_dict", "extent", "is_all_triangles", "n_open_edges", "is_manifold", "memory_address",
    "distinct_cell_types", "max_cell_dimensionality", "min_cell_dimensionality",
}
TOPO_M = {
    "GetCells", "GetLines", "GetPolys", "GetVerts", "GetCellType", "GetNumberOfCells", "GetNumberOfPoints", "cell_neighbors",
    "point_neighbors", "point_cell_ids", "GetPolyhedronFaces", "GetPolyhedronFaceLocations", "GetFaces", "GetFaceLocations", "GetFaceStream",
    "GetDimensions", "GetCellTypesArray", "GetCell", "GetCellPoints", "GetStrips", "GetNumberOfLines", "GetNumberOfPolys",
}


def _dot(a, b):
    return sum((x * y for x, y in zip(a, b)), 0.0)


def _cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def _is0(x):
    return not is_sym(x) and float(x) == 0.0


def _unit_normal(F):
    """Unit normal of a planar polygon, along the order of its nodes."""
    d = [[x - y for x, y in zip(q, F[0])] for q in F[1:]]
    n = [0.0, 0.0, 0.0]
    for u, v in zip(d[:-1], d[1:]):
        n = [x + y for x, y in zip(n, _cross(u, v))]
    ax = [a for a in range(3) if all(_is0(q[a]) for q in d)]
    if len(ax) == 1:
        s = 1.0 if bool(symnp.UF["greater"](n[ax[0]], 0.0)) else -1.0
        return [s if a == ax[0] else 0.0 for a in range(3)]
    if any(is_sym(x) for x in n):
        raise Unsupported("normal of a symbolic tilted face")
    n = [float(x) for x in n]
    k = sum(x * x for x in n) ** 0.5
    return [x / k for x in n]


def _side(x):
    """Sign of x: -1, 0 or 1 (forks)."""
    if bool(symnp.UF["greater"](x, 0.0)):
        return 1
    return -1 if bool(symnp.UF["less"](x, 0.0)) else 0


def _crosses_face(a, b, F):
    n = _unit_normal(F)
    da, db = _dot(n, [x - y for x, y in zip(a, F[0])]), _dot(n, [x - y for x, y in zip(b, F[0])])
    den = da - db
    if _is0(den) or (not is_sym(den) and abs(float(den)) < 1e-12):
        return False
    sa, sb = _side(da), _side(db)
    if sa * sb > 0:
        return False
    t = core.divide(da, den)
    X = [x + t * (y - x) for x, y in zip(a, b)]
    signs = set()
    for p, q in zip(F, F[1:] + F[:1]):
        e, d = [y - x for x, y in zip(p, q)], [y - x for x, y in zip(p, X)]
        k = [a for a in range(3) if not _is0(e[a])]
        # the sign of an edge along an axis comes out of the product
        s = _side(_dot(n, _cross([1.0 if a == k[0] else 0.0 for a in range(3)], d))) * _side(e[k[0]]) if len(k) == 1 else _side(_dot(n, _cross(e, d)))
        if s == 0:
            continue
        signs.add(s)
        if len(signs) == 2:
            return False
    return True


def _segments_cross(a, b, p, q):
    """Segments in the same coordinate plane."""
    flat = [k for k in range(3) if all(_is0(x[k] - a[k]) for x in (b, p, q))]
    if not flat:
        raise Unsupported("line crossing out of a coordinate plane")
    u, v = [k for k in range(3) if k != flat[0]]
    turn = lambda o, e, x: (e[u] - o[u]) * (x[v] - o[v]) - (e[v] - o[v]) * (x[u] - o[u])
    s1, s2 = _side(turn(a, b, p)), _side(turn(a, b, q))
    if s1 * s2 > 0:
        return False
    if s1 == 0 and s2 == 0:
        raise Unsupported("collinear lines")
    return _side(turn(p, q, a)) * _side(turn(p, q, b)) <= 0


def _opaque_size(tag, comps):
    """A non-negative number that vanishes exactly when all `comps` vanish."""
    comps = [c for c in comps]
    if not any(is_sym(c) for c in comps):
        return 0.5 * float(sum(float(c) ** 2 for c in comps)) ** 0.5
    if any((not is_sym(c)) and float(c) != 0.0 for c in comps):
        return 1.0
    syms = [c for c in comps if is_sym(c)]
    key = tuple(c.key() for c in syms)
    z = core.ENG.fresh(tag, key)
    import z3

    nz = sor(*[c != 0 for c in syms])
    if not is_sym(nz):
        return 1.0 if nz else 0.0
    core.ENG.define(z3.And(z >= 0, (z > 0) == core.zb(nz)))
    return Num.atom(z, "f", core.Fraction(0), None)


def _det(a, b, c):
    return (
        a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0]) + a[2] * (b[0] * c[1] - b[1] * c[0])
    )


def _volume(t, P):
    """Sum of tetrahedra; zero when the cell is flat between its two end faces."""
    sub = lambda a, b: [x - y for x, y in zip(a, b)]
    if t == "HEXAHEDRON":
        tets = ((0, 1, 3, 4), (1, 4, 5, 6), (1, 4, 6, 3), (1, 3, 6, 2), (3, 6, 7, 4))
    elif t == "VOXEL":
        tets = ((0, 1, 2, 4), (1, 4, 5, 7), (1, 4, 7, 2), (1, 2, 7, 3), (2, 7, 6, 4))
    elif t == "WEDGE":
        tets = ((0, 2, 1, 3), (1, 3, 5, 4), (1, 2, 5, 3))
    elif t == "TETRA":
        tets = ((0, 1, 2, 3),)
    else:
        raise Unsupported(f"volume of {t}")
    if len({i for q in P for x in q if type(x) is Num for m in x.p for i in m}) > 8:
        # too large to expand: any non-negative value (over-approximation)
        key = tuple(x.key() if type(x) is Num else float(x) for q in P for x in q)
        z = core.ENG.fresh("volume", key)
        core.ENG.define(z >= 0)
        return Num.atom(z, "f", core.Fraction(0), None)
    v = 0.0
    for a, b, c, d in tets:
        v = v + core.sabs(_det(sub(P[b], P[a]), sub(P[c], P[a]), sub(P[d], P[a])))
    return v * (1.0 / 6.0)


def _one_hot(meshes, rs):
    """Ask VTK how it combines the data of the points it merges (only when that matters)."""
    if not all(any(has_sym(v) for v in m.point_data._d.values()) for m in meshes):
        return
    n = sum(len(m._p) for m in meshes)
    if n < 2:
        return
    k = 0
    for m, r in zip(meshes, rs):
        r.point_data[HOT] = rnp.eye(n)[k : k + len(m._p)]
        k += len(m._p)


def _merge_call(meshes, fn, merge_points, tol=None):
    conc = all(m._concrete() for m in meshes)
    pts = [None] * len(meshes)
    if not conc:
        if merge_points:
            allp = symnp.vstack([m._p for m in meshes])
            ph = meshes[0]._merge_placeholder(allp, tol)
        else:
            ph = _placeholder(sum(len(m._p) for m in meshes))
        k = 0
        for i, m in enumerate(meshes):
            pts[i] = ph[k : k + len(m._p)]
            k += len(m._p)
    rs = [m._to_real(points=p, tag=i) for i, (m, p) in enumerate(zip(meshes, pts))]
    merged = merge_points and not conc
    if merged:
        _one_hot(meshes, rs)
    return DataSet._from_real(fn(rs), list(meshes), merged)


NEAR = {"on": False}


def near_merging(W):
    """Have the symbolic world tell points that are close (within a merging tolerance) from points that coincide."""
    if W.sym:
        NEAR["on"] = True


class _PointSet(DataSet):
    pass


class PolyData(_PointSet):
    _real_type = rpv.PolyData

    def __init__(self, var_inp=None, faces=None, n_faces=None, lines=None, n_lines=None, strips=None, n_strips=None, deep=False, force_ext=None, force_float=True, verts=None, n_verts=None):
        if var_inp is None:
            self._init(rpv.PolyData(), wrap(rnp.zeros((0, 3))))
            return
        if isinstance(var_inp, DataSet):
            o = var_inp.copy() if deep else var_inp
            self._init(o._r, o._p)
            return
        p = _pts(var_inp)
        if deep:
            p = p.copy()
        kw = {}
        for k, v in (("faces", faces), ("lines", lines), ("strips", strips), ("verts", verts), ("n_faces", n_faces), ("n_lines", n_lines), ("n_verts", n_verts)):
            if v is not None:
                kw[k] = _real_args(v)
        self._init(rpv.PolyData(_placeholder(len(p)), **kw), p)

    def _copyfrom(self, r, p):
        m = PolyData.__new__(PolyData)
        m._init(r, p)
        return m

    @staticmethod
    def from_irregular_faces(points, faces):
        p = _pts(points)
        r = rpv.PolyData.from_irregular_faces(_placeholder(len(p)), [rnp.asarray(plain(f)) for f in faces])
        m = PolyData.__new__(PolyData)
        m._init(r, p)
        return m

    @staticmethod
    def from_regular_faces(points, faces, deep=False):
        p = _pts(points)
        r = rpv.PolyData.from_regular_faces(_placeholder(len(p)), rnp.asarray(plain(faces)))
        m = PolyData.__new__(PolyData)
        m._init(r, p)
        return m

    @property
    def lines(self):
        return wrap(rnp.array(self._r.lines))

    @lines.setter
    def lines(self, v):
        self._r.lines = rnp.asarray(plain(v))

    def strip(self, *a, **k):
        return self._run(lambda r: r.strip(*a, **k))

    def clean(self, *a, **k):
        # vtkCleanPolyData also turns degenerate cells into lower-dimensional ones
        return DataSet.clean(self, *a, **k)

    def flip_normals(self):
        raise Unsupported("flip_normals")


class UnstructuredGrid(_PointSet):
    _real_type = rpv.UnstructuredGrid

    def __init__(self, *args, deep=False, **k):
        if not args:
            self._init(rpv.UnstructuredGrid(), wrap(rnp.zeros((0, 3))))
            return
        if len(args) == 1 and isinstance(args[0], DataSet):
            o = args[0] if isinstance(args[0], UnstructuredGrid) else args[0].cast_to_unstructured_grid()
            if deep:
                o = o.copy()
            self._init(o._r, o._p)
            self.cell_data._d.update(o.cell_data._d)
            self.point_data._d.update(o.point_data._d)
            return
        p = _pts(args[-1])
        ph = _placeholder(len(p))
        if len(args) == 2 and isinstance(args[0], dict):
            r = rpv.UnstructuredGrid({k: rnp.asarray(plain(v)) for k, v in args[0].items()}, ph)
        elif len(args) == 3 and has_sym(args[1]):
            # symbolic cell types: the VTK grid is only built (and the types fixed) on demand
            self.__class__ = LazyGrid
            self._lazy = (rnp.asarray(plain(args[0])), asarray(args[1]), None)
            self._init(None, p)
            return
        elif len(args) == 3:
            cells = rnp.asarray(plain(args[0]) if isinstance(args[0], (SA, list, tuple)) else args[0])
            types = rnp.asarray(plain(args[1]) if isinstance(args[1], (SA, list, tuple)) else args[1])
            r = rpv.UnstructuredGrid(cells, types, ph)
        else:
            raise Unsupported("UnstructuredGrid arguments")
        self._init(r, p)


class LazyGrid(UnstructuredGrid):
    """An unstructured grid whose cell types are symbolic."""

    @property
    def _r(self):
        c, t, r = self._lazy
        if r is None:
            t = plain(t)
            r = rpv.UnstructuredGrid(c, rnp.asarray(t), _placeholder(len(self._p)))
            self._lazy = (c, wrap(rnp.asarray(t)), r)
        return r

    @_r.setter
    def _r(self, r):
        if r is not None:
            self._lazy = (*self._lazy[:2], r)

    @property
    def celltypes(self):
        return self._lazy[1].copy()

    @property
    def n_cells(self):
        return len(self._lazy[1])

    @property
    def n_points(self):
        return len(self._p)

    def copy(self, deep=True):
        if self._lazy[2] is not None:
            return DataSet.copy(self, deep)
        m = LazyGrid.__new__(LazyGrid)
        m._lazy = self._lazy
        m._init(None, self._p.copy() if deep else self._p)
        for a, b in ((self.cell_data, m.cell_data), (self.point_data, m.point_data)):
            for k, v in a._d.items():
                b._d[k] = v.copy() if deep else v
        return m


class StructuredGrid(_PointSet):
    _real_type = rpv.StructuredGrid

    def __init__(self, uinput=None, y=None, z=None, *a, deep=False, **k):
        if uinput is None:
            self._init(rpv.StructuredGrid(), wrap(rnp.zeros((0, 3))))
            return
        if isinstance(uinput, DataSet):
            o = uinput.copy() if deep else uinput
            self._init(o._r, o._p)
            self.cell_data._d.update(o.cell_data._d)
            self.point_data._d.update(o.point_data._d)
            return
        x, y, z = asarray(uinput), asarray(y), asarray(z)
        if not (x.shape == y.shape == z.shape):
            raise ValueError("Input point array shapes must match exactly")
        p = symnp.column_stack([c.ravel(order="F") for c in (x, y, z)]).astype(F8)
        shp = list(x.shape) + [1] * (3 - x.ndim)
        r = rpv.StructuredGrid()
        r.points = _placeholder(len(p))
        r.dimensions = shp
        self._init(r, p)

    @property
    def dimensions(self):
        return self._r.dimensions

    @dimensions.setter
    def dimensions(self, d):
        self._r.dimensions = plain(d)

    def _axis(self, a):
        return self._p[:, a].reshape(self._r.dimensions, order="F")

    @property
    def x(self):
        return self._axis(0)

    @property
    def y(self):
        return self._axis(1)

    @property
    def z(self):
        return self._axis(2)

    @property
    def points_matrix(self):
        return self._p.reshape((*self._r.dimensions, 3), order="F")

    def cast_to_structured_grid(self):
        return self.copy()

    def hide_cells(self, ind, inplace=False):
        m = self if inplace else self.copy()
        g = symnp.zeros(m.n_cells, dtype=rnp.uint8)
        g[ind] = 32
        m.cell_data[GHOST] = g
        return m


class ExplicitStructuredGrid(_PointSet):
    _real_type = rpv.ExplicitStructuredGrid

    def __init__(self, *a, **k):
        raise Unsupported("ExplicitStructuredGrid")


class _Gridded(DataSet):
    """Axis-aligned grids: the coordinates are derived, the rest is cast to a structured grid."""

    def _fill(self, r, xs):
        o = rnp.empty((r.n_points, 3), dtype=object)
        n = 0
        for c in xs[2]:
            for b in xs[1]:
                for a in xs[0]:
                    o[n] = (a, b, c)
                    n += 1
        self._init(r, wrap(o, F8))

    def cast_to_structured_grid(self):
        r = rpv.StructuredGrid()
        r.points = _placeholder(len(self._p))
        r.dimensions = self._r.dimensions
        m = StructuredGrid.__new__(StructuredGrid)
        m._init(r, self._p.copy())
        for k, v in self.cell_data._d.items():
            m.cell_data._d[k] = v.copy()
        for k, v in self.point_data._d.items():
            m.point_data._d[k] = v.copy()
        if self._ud is not None:
            m._ud = UserDict(_ud_in(json.loads(json.dumps(_ud_out(dict(self._ud))))))
        return m


class RectilinearGrid(_Gridded):
    _real_type = rpv.RectilinearGrid

    def __init__(self, x=None, y=None, z=None, **k):
        xs = [asarray(c) if c is not None else asarray([0.0]) for c in (x, y, z)]
        self._fill(rpv.RectilinearGrid(*[rnp.arange(len(c), dtype=float) for c in xs]), xs)


class ImageData(_Gridded):
    _real_type = rpv.ImageData

    def __init__(self, uinput=None, dimensions=None, spacing=(1.0, 1.0, 1.0), origin=(0.0, 0.0, 0.0), **k):
        d = [int(x) for x in dimensions]
        xs = [[origin[q] + spacing[q] * i for i in range(d[q])] for q in range(3)]
        self._fill(rpv.ImageData(dimensions=d), xs)


_TYPES = {
    rpv.PolyData: PolyData,
    rpv.UnstructuredGrid: UnstructuredGrid,
    rpv.StructuredGrid: StructuredGrid,
    rpv.RectilinearGrid: RectilinearGrid,
    rpv.ImageData: ImageData,
    rpv.ExplicitStructuredGrid: ExplicitStructuredGrid,
}


def _wrap_type(r):
    for k, c in _TYPES.items():
        if isinstance(r, k):
            return c.__new__(c)
    raise Unsupported(f"mesh type {type(r).__name__}")


def MultipleLines(points=((-0.5, 0.0, 0.0), (0.5, 0.0, 0.0))):
    p = _pts(points)
    if len(p) < 2:
        raise ValueError(">=2 points need to define multiple lines.")
    r = rpv.MultipleLines(_placeholder(len(p)))
    p = p.copy()
    m = DataSet._from_real(r)
    m._p = p
    m.point_data.clear()
    m.point_data["Distance"] = rnp.zeros(len(p))
    return m


def lines_from_points(points, close=False):
    p = _pts(points)
    r = rpv.lines_from_points(_placeholder(len(p)), close=bool(close))
    m = PolyData.__new__(PolyData)
    t = r.copy(deep=True)
    t.clear_data()
    m._init(t, p)
    return m


def line_segments_from_points(points):
    p = _pts(points)
    r = rpv.line_segments_from_points(_placeholder(len(p)))
    m = PolyData.__new__(PolyData)
    m._init(r, p)
    return m


def merge(datasets, merge_points=True, **k):
    if not isinstance(datasets, (list, tuple)) or not all(isinstance(d, DataSet) for d in datasets):
        raise TypeError("Expected a sequence of datasets")
    if len(datasets) < 1:
        raise ValueError("Expected at least one dataset.")
    return _merge_call(list(datasets), lambda rs: rpv.merge(rs, merge_points=merge_points, **k), merge_points, k.get("tolerance"))


def Line(pointa=(-0.5, 0.0, 0.0), pointb=(0.5, 0.0, 0.0), resolution=1):
    a, b = asarray(pointa), asarray(pointb)
    t = symnp.linspace(0.0, 1.0, resolution + 1)
    p = a + t[:, None] * (b - a)
    r = rpv.Line(resolution=resolution)
    m = DataSet._from_real(r)
    m._p = p
    return m


class _Module:
    __name__ = "pyvista"

    def __getattr__(self, n):
        g = globals()
        if n in EXPORT:
            return g[n]
        r = getattr(rpv, n)
        if isinstance(r, type) and issubclass(r, rpv.DataSet):
            raise Unsupported(f"pyvista.{n}")
        if callable(r) and not isinstance(r, type):
            def f(*a, **k):
                return DataSet._from_real(r(*_real_args(a), **_real_args(k)))

            return f
        return r


EXPORT = {
    "DataSet", "PolyData", "UnstructuredGrid", "StructuredGrid", "RectilinearGrid", "ImageData", "ExplicitStructuredGrid",
    "MultipleLines", "lines_from_points", "line_segments_from_points", "merge", "Line",
}
module = _Module()
