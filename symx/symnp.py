"""numpy for symbolic values.

`SA` is an ndarray of Python objects that reports the dtype the values would have.  Structural
operations (indexing, reshaping, stacking, ...) are numpy's own, run on the object array;
element-wise and reducing operations are interpreted per element; anything else runs numpy on
the concrete values, or raises Unsupported when a value is symbolic.
"""
from __future__ import annotations

import itertools
import math

import numpy as np

from . import core
from .core import (
    Num,
    SBool,
    Unsupported,
    concretize,
    divide,
    is_sym,
    ite,
    sabs,
    sand,
    smax,
    smin,
    snot,
    sor,
    sxor,
)

F8, I8, B1 = np.dtype("float64"), np.dtype("int64"), np.dtype(bool)


# ---------------------------------------------------------------- elements
def el_dtype(x):
    if type(x) is Num:
        return I8 if x.k == "i" else F8
    if type(x) is SBool or isinstance(x, (bool, np.bool_)):
        return B1
    if isinstance(x, np.generic):
        return x.dtype
    if isinstance(x, int):
        return I8
    if isinstance(x, float):
        return F8
    if isinstance(x, (str, np.str_)):
        return np.dtype(f"<U{max(1, len(x))}")
    return np.dtype(object)


def infer(raw, default=F8):
    ds = set()
    for x in raw.ravel():
        ds.add(el_dtype(x))
    if not ds:
        return default
    if len(ds) == 1:
        return ds.pop()
    kinds = {d.kind for d in ds}
    if "O" in kinds:
        return np.dtype(object)
    if "U" in kinds and kinds != {"U"}:
        return np.dtype(object)
    return np.result_type(*ds)


def np_scalar(x, ld):
    """What indexing a real array of dtype ld would return."""
    if is_sym(x) or ld.kind == "O":
        return x
    if ld.kind == "U":
        return np.str_(x)
    try:
        return ld.type(x)
    except (OverflowError, ValueError):
        return x


def cast_el(x, ld):
    """Value stored when x is assigned into an array of dtype ld."""
    k = ld.kind
    if k == "O":
        return x
    if type(x) is Num:
        if k == "f":
            return x if x.k == "f" else Num(x.p, "f")
        if k in "iu":
            if x.k == "i":
                return x
            # truncation of a real
            return core.trunc(x)
        if k == "b":
            return x != 0
        raise Unsupported(f"storing a number in {ld}")
    if type(x) is SBool:
        return x if k == "b" else (x.num() if k in "iu" else core.Num._lift(x) and cast_el(x.num(), ld))
    if k == "U":
        return str(x)
    if x is None:
        raise TypeError("None in numeric array")
    if k == "f":
        return float(x)
    if k in "iu":
        if isinstance(x, (float, np.floating)) and not math.isfinite(x):
            raise ValueError("cannot convert float NaN to integer")
        return int(x)
    if k == "b":
        return bool(x)
    raise Unsupported(f"dtype {ld}")


_cast = np.frompyfunc(cast_el, 2, 1)


def has_sym(a) -> bool:
    if type(a) in (Num, SBool):
        return True
    if isinstance(a, SA):
        return any(type(x) in (Num, SBool) for x in a.view(np.ndarray).flat)
    if isinstance(a, np.ndarray):
        return a.dtype.kind == "O" and any(type(x) in (Num, SBool) or has_sym(x) for x in a.flat)
    if isinstance(a, (list, tuple, set)):
        return any(has_sym(x) for x in a)
    if isinstance(a, dict):
        return any(has_sym(x) for x in a.values())
    return False


def raw(a):
    """Object ndarray (sharing memory) or the argument with SAs replaced inside containers."""
    if isinstance(a, SA):
        return a.view(np.ndarray)
    if isinstance(a, np.ndarray) and a.dtype.kind != "O":
        r = np.empty(a.shape, dtype=object)
        r[...] = a
        return r
    if isinstance(a, list):
        return [raw(x) for x in a]
    if isinstance(a, tuple):
        return tuple(raw(x) for x in a)
    return a


def conc(a):
    """Real numpy value of a fully concrete argument."""
    if isinstance(a, SA):
        return a.numeric()
    if isinstance(a, list):
        return [conc(x) for x in a]
    if isinstance(a, tuple):
        return tuple(conc(x) for x in a)
    if isinstance(a, dict):
        return {k: conc(v) for k, v in a.items()}
    if isinstance(a, np.ufunc) or not callable(a):
        return a
    return a


def wrap(x, ld=None):
    """Turn a numpy result into SA (arrays) or leave scalars."""
    if isinstance(x, SA):
        return x
    if isinstance(x, np.ndarray):
        if x.dtype.kind == "O":
            r = x.view(SA)
            r._ld = ld if ld is not None else infer(x)
            return r
        r = np.empty(x.shape, dtype=object)
        if x.size:
            r[...] = x
        r = r.view(SA)
        r._ld = ld if ld is not None else x.dtype
        return r
    if isinstance(x, tuple) and type(x) is tuple:
        return tuple(wrap(y) for y in x)
    if isinstance(x, list):
        return [wrap(y) for y in x]
    return x


def scalar_or(x, ld=None):
    """0-d object arrays become scalars."""
    if isinstance(x, np.ndarray):
        if x.ndim == 0:
            v = x.item() if x.dtype.kind == "O" else x[()]
            return np_scalar(v, ld if ld is not None else el_dtype(v))
        return wrap(x, ld)
    if is_sym(x):
        return x
    d = ld if ld is not None else el_dtype(x)
    return np_scalar(x, d)


class SA(np.ndarray):
    _ld = F8

    def __array_finalize__(self, obj):
        if obj is not None:
            self._ld = getattr(obj, "_ld", F8)

    # -- dtype --------------------------------------------------------
    @property
    def dtype(self):
        return self._ld

    @property
    def itemsize(self):
        return self._ld.itemsize

    def numeric(self):
        r = self.view(np.ndarray)
        if self._ld.kind == "O":
            return r.copy()
        if any(is_sym(x) for x in r.flat):
            raise Unsupported("concrete value needed")
        if self._ld.kind == "U":
            return np.array(r.tolist(), dtype=str).reshape(r.shape)
        out = np.empty(r.shape, dtype=self._ld)
        if r.size:
            out[...] = r
        return out

    def astype(self, t, order="K", casting="unsafe", subok=True, copy=True):
        t = np.dtype(t)
        r = self.view(np.ndarray)
        if r.size:
            o = _cast(r, t)
            o = o if isinstance(o, np.ndarray) else np.array(o, dtype=object)
        else:
            o = r.copy()
        o = o.view(SA)
        o._ld = t
        return o

    def __deepcopy__(self, memo):
        return self.copy()

    def __reduce__(self):
        raise Unsupported("pickle of symbolic array")

    # -- indexing -------------------------------------------------------
    def _index(self, i):
        if isinstance(i, tuple):
            return tuple(self._index1(x) for x in i)
        return self._index1(i)

    @staticmethod
    def _index1(x):
        if isinstance(x, SA):
            if x._ld.kind == "b":
                return np.array([bool(e) for e in x.view(np.ndarray).flat], dtype=bool).reshape(x.shape)
            if x._ld.kind in "iu":
                return np.array([int(e) for e in x.view(np.ndarray).flat], dtype=int).reshape(x.shape)
            if x.size == 0:
                return np.zeros(x.shape, dtype=int)
            raise IndexError("arrays used as indices must be of integer (or boolean) type")
        if type(x) is Num:
            if x.k != "i":
                raise IndexError("only integers, slices ... are valid indices")
            return int(concretize(x))
        if type(x) is SBool:
            return bool(x)
        if isinstance(x, (list,)) and has_sym(x):
            return SA._index1(array(x))
        if isinstance(x, list) and any(isinstance(e, np.ndarray) for e in x):
            return SA._index1(array(x))
        if isinstance(x, slice):
            f = lambda v: int(v) if type(v) is Num else v
            return slice(f(x.start), f(x.stop), f(x.step))
        return x

    def __getitem__(self, i):
        # table lookup with symbolic integer positions: if-then-else over the table
        if (
            self.ndim == 1
            and isinstance(i, SA)
            and i._ld.kind in "iu"
            and self.size <= 128
            and self.size > 0
            and has_sym(i)
        ):
            tab = self.view(np.ndarray)
            out = np.empty(i.shape, dtype=object)
            for pos, e in np.ndenumerate(i.view(np.ndarray)):
                out[pos] = self._lookup(tab, e)
            return wrap(out, self._ld)
        idx = self._index(i)
        r = np.ndarray.__getitem__(self, idx)
        if isinstance(r, np.ndarray):
            if isinstance(r, SA):
                r._ld = self._ld
                return r
            return r
        return np_scalar(r, self._ld)

    def _lookup(self, tab, e):
        if type(e) is not Num:
            return tab[int(e)]
        n = len(tab)
        if not bool(sand(e >= -n, e < n)):
            raise IndexError("index out of bounds")
        lo, hi = e.bounds()
        lo = -n if lo is None else max(-n, int(lo))
        hi = n - 1 if hi is None else min(n - 1, int(hi))
        groups = {}
        for v in range(lo, hi + 1):
            groups.setdefault(tab[v] if not is_sym(tab[v]) else ("s", v), []).append(v)
        res = None
        for k, vs in groups.items():
            val = tab[vs[0]]
            res = val if res is None else ite(sor(*[e == v for v in vs]), val, res)
        return res

    def __setitem__(self, i, v):
        ld = self._ld
        if isinstance(i, SA) and i._ld.kind == "b" and has_sym(i) and i.shape == self.shape[: i.ndim]:
            va = v if isinstance(v, np.ndarray) else (array(v) if isinstance(v, (list, tuple)) else None)
            if va is None or va.ndim == 0 or va.size == 1:
                x = v if va is None else va.reshape(-1)[0]
                x = cast_el(x, ld)
                r = self.view(np.ndarray)
                for pos, m in np.ndenumerate(i.view(np.ndarray)):
                    if type(m) is not SBool:
                        if m:
                            r[pos] = x
                        continue
                    if i.ndim == self.ndim:
                        r[pos] = ite(m, x, r[pos])
                    else:
                        sub = r[pos]
                        for q in np.ndindex(sub.shape):
                            sub[q] = ite(m, x, sub[q])
                return
        idx = self._index(i)
        if isinstance(v, SA):
            v = v.view(np.ndarray)
            v = _cast(v, ld) if v.size else v
        elif isinstance(v, np.ndarray):
            v = _cast(raw(v), ld) if v.size else v
        elif isinstance(v, (list, tuple)):
            va = array(v).view(np.ndarray)
            v = _cast(va, ld) if va.size else va
        else:
            v = cast_el(v, ld)
        np.ndarray.__setitem__(self.view(np.ndarray), idx, v)

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        for j in range(self.shape[0]):
            yield self[j]

    def __contains__(self, x):
        return bool(any_(self == x))

    def __bool__(self):
        if self.size != 1:
            raise ValueError(
                "The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()"
            )
        return bool(self.view(np.ndarray).flat[0])

    def __len__(self):
        if self.ndim == 0:
            raise TypeError("len() of unsized object")
        return self.shape[0]

    def __index__(self):
        if self.size == 1 and self._ld.kind in "iu":
            return int(self.view(np.ndarray).flat[0])
        raise TypeError("only integer scalar arrays can be converted to a scalar index")

    def __int__(self):
        return int(self.view(np.ndarray).flat[0])

    def __float__(self):
        x = self.view(np.ndarray).flat[0]
        if is_sym(x):
            raise Unsupported("float() of a symbolic value")
        return float(x)

    def __repr__(self):
        return "SA(" + np.array2string(self.view(np.ndarray)) + f", {self._ld})"

    __str__ = __repr__

    def item(self, *a):
        x = self.view(np.ndarray).item(*a)
        return x.item() if isinstance(x, np.generic) else x

    def tolist(self):
        def f(x):
            if isinstance(x, list):
                return [f(y) for y in x]
            if isinstance(x, np.generic):
                return x.item()
            if is_sym(x):
                return x
            return np_scalar(x, self._ld).item() if self._ld.kind not in "OU" else x

        return f(self.view(np.ndarray).tolist())

    # -- dispatch -------------------------------------------------------
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return ufunc_dispatch(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        return function_dispatch(func, args, kwargs)

    def __array__(self, dtype=None, copy=None):
        if dtype is not None and np.dtype(dtype).kind != "O":
            return self.astype(dtype).numeric()
        return self.numeric()

    # -- methods that reduce or search ------------------------------------
    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return sum_(self, axis=axis, keepdims=keepdims, **k)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return mean(self, axis=axis, keepdims=keepdims, **k)

    def prod(self, axis=None, **k):
        return prod(self, axis=axis, **k)

    def min(self, axis=None, out=None, keepdims=False, **k):
        return amin(self, axis=axis, keepdims=keepdims, **k)

    def max(self, axis=None, out=None, keepdims=False, **k):
        return amax(self, axis=axis, keepdims=keepdims, **k)

    def ptp(self, axis=None, **k):
        return ptp(self, axis=axis, **k)

    def any(self, axis=None, out=None, keepdims=False, **k):
        return any_(self, axis=axis, keepdims=keepdims, **k)

    def all(self, axis=None, out=None, keepdims=False, **k):
        return all_(self, axis=axis, keepdims=keepdims, **k)

    def argmin(self, axis=None, **k):
        return argmin(self, axis=axis, **k)

    def argmax(self, axis=None, **k):
        return argmax(self, axis=axis, **k)

    def argsort(self, axis=-1, **k):
        return argsort(self, axis=axis, **k)

    def sort(self, axis=-1, **k):
        r = sort(self, axis=axis)
        np.ndarray.__setitem__(self.view(np.ndarray), Ellipsis, raw(r))

    def cumsum(self, axis=None, **k):
        return cumsum(self, axis=axis, **k)

    def clip(self, min=None, max=None, **k):
        return clip(self, min, max, **k)

    def dot(self, o):
        return dot(self, o)

    def nonzero(self):
        return nonzero(self)

    def round(self, *a, **k):
        if has_sym(self):
            if self._ld.kind in "iu":
                return self.copy()
            n = a[0] if a else k.get("decimals", 0)
            f = 10.0**n
            r = ufunc_dispatch(np.rint, "__call__", (self * f if n else self,), {})
            return r * (1.0 / f) if n else r
        return wrap(self.numeric().round(*a, **k))

    def fill(self, v):
        self[...] = v

    def repeat(self, n, axis=None):
        return wrap(np.repeat(raw(self), conc(n), axis), self._ld)

    def take(self, idx, axis=None, **k):
        return wrap(np.take(raw(self), SA._index1(asarray(idx)), axis=axis), self._ld)

    def std(self, *a, **k):
        return std(self, *a, **k)

    def var(self, *a, **k):
        return var(self, *a, **k)

    def cumprod(self, axis=None, **k):
        return cumprod(self, axis=axis)

    def trace(self, *a, **k):
        return trace(self)

    def tobytes(self, *a, **k):
        return self.numeric().tobytes(*a, **k)

    @property
    def flat(self):
        class _F:
            def __init__(s, a):
                s.a = a

            def __iter__(s):
                return (np_scalar(x, s.a._ld) for x in s.a.view(np.ndarray).flat)

            def __getitem__(s, i):
                return s.a.ravel()[i]

            def __setitem__(s, i, v):
                pos = np.arange(s.a.size)[conc(asarray(i)) if isinstance(i, (list, np.ndarray)) else i]
                vals = np.broadcast_to(raw(asarray(v)), np.shape(pos))
                for j, x in zip(np.ravel(pos), np.ravel(vals)):
                    s.a[np.unravel_index(int(j), s.a.shape)] = x

            def __len__(s):
                return s.a.size

        return _F(self)

    @property
    def real(self):
        return self

    def conjugate(self):
        return self

    conj = conjugate

    # arithmetic in place must keep dtype
    def _inplace(self, o, f):
        r = f(self, o)
        rr = raw(r) if isinstance(r, np.ndarray) else r
        rl = r.dtype if isinstance(r, np.ndarray) else el_dtype(r)
        if self._ld.kind in "iu" and rl.kind == "f":
            raise np._core._exceptions._UFuncOutputCastingError(
                np.add, "same_kind", np.dtype(float), np.dtype(int), 0
            )
        self[...] = rr if not isinstance(rr, np.ndarray) else wrap(rr, rl)
        return self

    def __iadd__(self, o):
        return self._inplace(o, lambda a, b: a + b)

    def __isub__(self, o):
        return self._inplace(o, lambda a, b: a - b)

    def __imul__(self, o):
        return self._inplace(o, lambda a, b: a * b)

    def __itruediv__(self, o):
        return self._inplace(o, lambda a, b: a / b)

    def __ipow__(self, o):
        return self._inplace(o, lambda a, b: a**b)

    def __ior__(self, o):
        return self._inplace(o, lambda a, b: a | b)

    def __iand__(self, o):
        return self._inplace(o, lambda a, b: a & b)

    def __ixor__(self, o):
        return self._inplace(o, lambda a, b: a ^ b)

    def __matmul__(self, o):
        return matmul(self, o)

    def __rmatmul__(self, o):
        return matmul(o, self)


# ---------------------------------------------------------------- creation
def _nested_has_array(x):
    if isinstance(x, (SA, Num, SBool)):
        return True
    if isinstance(x, (list, tuple)):
        return any(_nested_has_array(y) for y in x)
    return False


def array(x, dtype=None, copy=True, order=None, subok=False, ndmin=0):
    if isinstance(x, SA):
        if dtype is not None and np.dtype(dtype) != x._ld:
            return x.astype(dtype)
        return x.copy() if copy else x
    if hasattr(x, "__array_sym__"):
        return array(x.__array_sym__(), dtype, copy)
    if type(x) in (Num, SBool):
        r = np.empty((), dtype=object)
        r[()] = x
        r = wrap(r, el_dtype(x))
        return r.astype(dtype) if dtype is not None else r
    if isinstance(x, (list, tuple)) and _nested_has_array(x):
        y = _to_lists(x)
        a = np.array(y, dtype=object)
        if a.size and any(isinstance(e, (list, tuple, np.ndarray)) for e in a.flat):
            raise ValueError(
                "setting an array element with a sequence. The requested array has an inhomogeneous shape"
            )
        lds = _leaf_dtypes(x)
        ld = infer(a, np.result_type(*lds) if lds else F8)
        r = wrap(a, ld)
        if ld.kind == "f" and a.size:
            r = r.astype(F8)
        return r.astype(dtype) if dtype is not None else r
    if isinstance(x, (map, filter, zip)) or hasattr(x, "__next__"):
        return wrap(np.array(x))
    if isinstance(x, range):
        return wrap(np.array(x, dtype=dtype))
    return wrap(np.array(x, dtype=dtype) if order is None else np.array(x, dtype=dtype, order=order))


def _leaf_dtypes(x):
    if isinstance(x, SA):
        return [x._ld]
    if isinstance(x, (list, tuple)):
        return [d for y in x for d in _leaf_dtypes(y)]
    return []


def _to_lists(x):
    if isinstance(x, SA):
        return _to_lists(list(x)) if x.ndim else x.view(np.ndarray).item()
    if isinstance(x, np.ndarray):
        return [_to_lists(y) for y in x] if x.ndim else x.item()
    if isinstance(x, (list, tuple)):
        return [_to_lists(y) for y in x]
    return x


def asarray(x, dtype=None, order=None, copy=None):
    if isinstance(x, SA) and (dtype is None or np.dtype(dtype) == x._ld):
        return x
    return array(x, dtype=dtype)


asanyarray = asarray


def ascontiguousarray(x, dtype=None):
    return asarray(x, dtype)


BENIGN = ("dtype", "out", "kind", "order", "stable", "subok", "like", "device", "copy", "casting", "optimize", "mode", "equal_nan", "sorted")


def _no(k, *ok):
    """Arguments the model does not know."""
    bad = [n for n, v in k.items() if n not in BENIGN and n not in ok and v is not None]
    if bad:
        raise Unsupported(f"numpy arguments {bad}")


def full(shape, v, dtype=None, **k):
    _no(k)
    r = np.empty(conc(shape) if not isinstance(shape, Num) else int(shape), dtype=object)
    if isinstance(v, np.ndarray) or isinstance(v, (list, tuple)):
        va = asarray(v)
        ld = np.dtype(dtype) if dtype is not None else va._ld
        r = wrap(r, ld)
        r[...] = va
        return r
    ld = np.dtype(dtype) if dtype is not None else el_dtype(v)
    r.fill(cast_el(v, ld))
    return wrap(r, ld)


def zeros(shape, dtype=float, **k):
    _no(k)
    return full(shape, 0, dtype)


def ones(shape, dtype=float, **k):
    _no(k)
    return full(shape, 1, dtype)


def empty(shape, dtype=float, **k):
    _no(k)
    return full(shape, 0, dtype)


def full_like(a, v, dtype=None, **k):
    _no(k)
    a = asarray(a)
    return full(a.shape, v, dtype if dtype is not None else a._ld)


def zeros_like(a, dtype=None, **k):
    _no(k)
    return full_like(a, 0, dtype)


def ones_like(a, dtype=None, **k):
    _no(k)
    return full_like(a, 1, dtype)


empty_like = zeros_like


def arange(*a, **k):
    return wrap(np.arange(*[int(x) if type(x) is Num and x.k == "i" else x for x in a], **k))


def linspace(a, b, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    if not has_sym((a, b)):
        return wrap(np.linspace(conc(a), conc(b), conc(num), endpoint=endpoint, retstep=retstep, dtype=dtype, axis=axis))
    if retstep:
        raise Unsupported("linspace retstep")
    if np.ndim(raw(a)) or np.ndim(raw(b)):
        n = int(num)
        d = n - 1 if endpoint else n
        a, b = asarray(a), asarray(b)
        out = [a + (b - a) * (float(i) / d) if d > 0 else a + (b - a) * 0.0 for i in range(n)]
        if endpoint and n > 1:
            out[-1] = b + (a - a)
        return stack(out, axis=axis)
    num = int(num)
    div = num - 1 if endpoint else num
    out = np.empty(num, dtype=object)
    for i in range(num):
        out[i] = a + (b - a) * (float(i) / div) if div > 0 else a
    if endpoint and num > 1:
        out[-1] = b if is_sym(b) else float(b)
    return wrap(out, F8)


# ---------------------------------------------------------------- ufuncs
def _f(name, conc_f=None):
    c = conc_f or getattr(np, name)

    def g(sym):
        def h(*xs):
            for x in xs:
                if type(x) in (Num, SBool):
                    return sym(*xs)
            with np.errstate(all="ignore"):
                return c(*xs)

        return h

    return g


def _ss(x):
    if type(x) is SBool:
        return x.num()
    return x.item() if isinstance(x, np.generic) else x


def _fin(x):
    return is_sym(x) or math.isfinite(float(x))


def _arith(op):
    def f(a, b):
        if not _fin(a) or not _fin(b):
            # symbolic (finite) value combined with inf/nan
            inf = a if not is_sym(a) else b
            if math.isnan(inf):
                return float("nan")
            if op == "add":
                return inf
            if op == "sub":
                return inf if inf is a else -inf
            if op == "mul":
                s = b if inf is a else a
                if bool(s == 0):
                    return float("nan")
                return inf if bool(s > 0) else -inf
            if op == "div":
                if inf is b:
                    return 0.0
                return inf if bool(b > 0) else -inf
        a, b = _ss(a), _ss(b)
        return {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "div": lambda: divide(a, b)}[op]()

    return f


def _minmax(f):
    def g(a, b):
        return f(_ss(a), _ss(b))

    return g


def _cmpf(op):
    import operator

    o = {"<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge, "==": operator.eq, "!=": operator.ne}[op]
    sw = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}

    def f(a, b):
        if type(a) is SBool and op not in ("==", "!="):
            a = a.num()
        if type(b) is SBool and op not in ("==", "!="):
            b = b.num()
        if is_sym(a):
            return o(a, b)
        return {"<": operator.gt, "<=": operator.ge, ">": operator.lt, ">=": operator.le, "==": operator.eq, "!=": operator.ne}[
            op
        ](b, a)

    return f


UF = {
    "add": _f("add")(_arith("add")),
    "subtract": _f("subtract")(_arith("sub")),
    "multiply": _f("multiply")(_arith("mul")),
    "divide": _f("divide")(_arith("div")),
    "true_divide": _f("divide")(_arith("div")),
    "floor_divide": _f("floor_divide")(lambda a, b: core.floordiv(_ss(a), b)),
    "remainder": _f("remainder")(lambda a, b: a % b),
    "power": _f("power")(lambda a, b: a**b),
    "negative": _f("negative")(lambda a: -a),
    "positive": _f("positive")(lambda a: a),
    "absolute": _f("absolute")(sabs),
    "fabs": _f("fabs")(sabs),
    "sqrt": _f("sqrt")(core.sqrt),
    "square": _f("square")(lambda a: a * a),
    "reciprocal": _f("reciprocal")(lambda a: divide(1.0, a)),
    "sign": _f("sign")(core.sign),
    "cos": _f("cos")(lambda a: core.trig("cos", a)),
    "sin": _f("sin")(lambda a: core.trig("sin", a)),
    "arctan2": _f("arctan2")(lambda a, b: core.atan2(a, b)),
    "deg2rad": _f("deg2rad")(lambda a: a * (math.pi / 180.0)),
    "radians": _f("radians")(lambda a: a * (math.pi / 180.0)),
    "rad2deg": _f("rad2deg")(lambda a: a * (180.0 / math.pi)),
    "degrees": _f("degrees")(lambda a: a * (180.0 / math.pi)),
    "minimum": _f("minimum")(_minmax(smin)),
    "maximum": _f("maximum")(_minmax(smax)),
    "fmin": _f("fmin")(_minmax(smin)),
    "fmax": _f("fmax")(_minmax(smax)),
    "less": _f("less")(_cmpf("<")),
    "less_equal": _f("less_equal")(_cmpf("<=")),
    "greater": _f("greater")(_cmpf(">")),
    "greater_equal": _f("greater_equal")(_cmpf(">=")),
    "equal": _f("equal")(_cmpf("==")),
    "not_equal": _f("not_equal")(_cmpf("!=")),
    "logical_and": _f("logical_and")(lambda a, b: sand(a, b)),
    "logical_or": _f("logical_or")(lambda a, b: sor(a, b)),
    "logical_not": _f("logical_not")(lambda a: snot(a)),
    "logical_xor": _f("logical_xor")(lambda a, b: sxor(a, b)),
    "bitwise_and": _f("bitwise_and")(lambda a, b: sand(a, b)),
    "bitwise_or": _f("bitwise_or")(lambda a, b: sor(a, b)),
    "bitwise_xor": _f("bitwise_xor")(lambda a, b: sxor(a, b)),
    "invert": _f("invert")(lambda a: snot(a)),
    "floor": _f("floor")(lambda a: core.floor(a) * 1.0),
    "ceil": _f("ceil")(lambda a: core.floor(-a) * -1.0),
    "trunc": _f("trunc")(lambda a: core.trunc(a) * 1.0),
    "rint": _f("rint")(lambda a: core.rint(a) * 1.0),
    "tan": _f("tan")(lambda a: divide(core.trig("sin", a), core.trig("cos", a))),
    "isnan": _f("isnan")(lambda a: False),
    "isinf": _f("isinf")(lambda a: False),
    "isfinite": _f("isfinite")(lambda a: True),
    "conjugate": _f("conjugate")(lambda a: a),
    "hypot": _f("hypot")(lambda a, b: core.norm([a, b])),
    "float_power": _f("float_power")(lambda a, b: a**b),
    "copysign": _f("copysign")(lambda a, b: -sabs(a) if bool(b < 0) else sabs(a)),
    "signbit": _f("signbit")(lambda a: a < 0),
}
BOOLRES = {
    "less", "less_equal", "greater", "greater_equal", "equal", "not_equal", "logical_and", "logical_or",
    "logical_not", "logical_xor", "isnan", "isinf", "isfinite", "signbit",
}


def _ld_of(x):
    if isinstance(x, SA):
        return x._ld
    if isinstance(x, np.ndarray):
        return x.dtype
    return el_dtype(x)


def ufunc_dispatch(ufunc, method, inputs, kw):
    name = ufunc.__name__
    out = kw.pop("out", None)
    if method == "reduce":
        a = inputs[0]
        axis = kw.get("axis", 0)
        keep = kw.get("keepdims", False)
        table = {
            "add": sum_, "multiply": prod, "minimum": amin, "maximum": amax, "logical_and": all_, "logical_or": any_,
            "bitwise_or": any_, "bitwise_and": all_,
        }
        if name in table:
            return table[name](a, axis=axis, keepdims=keep)
        raise Unsupported(f"{name}.reduce")
    if method == "accumulate" and name == "add":
        return cumsum(inputs[0], axis=kw.get("axis", 0))
    if method == "accumulate":
        return _accumulate(ufunc, asarray(inputs[0]), kw.get("axis", 0))
    if method == "reduceat":
        a, idx = asarray(inputs[0]), [int(i) for i in conc(asarray(inputs[1]))]
        ends = idx[1:] + [len(a)]
        return stack([ufunc_dispatch(ufunc, "reduce", (a[i : max(j, i + 1)],), dict(axis=0)) for i, j in zip(idx, ends)])
    if method == "outer":
        a, b = asarray(inputs[0]), asarray(inputs[1])
        return ufunc_dispatch(ufunc, "__call__", (a.reshape(a.shape + (1,) * b.ndim), b), kw)
    if method == "at":
        # unbuffered: repeated indices accumulate
        a, idx, *v = inputs
        if not isinstance(a, SA) and has_sym((idx, *v)):
            raise Unsupported("ufunc.at of a concrete array")
        ids = np.arange(a.size).reshape(a.shape)
        ix = lambda i: SA._index1(asarray(i)) if isinstance(i, (list, np.ndarray)) else i  # noqa: E731
        pos = np.asarray(ids[tuple(ix(i) for i in idx) if isinstance(idx, tuple) else ix(idx)])
        vals = [np.broadcast_to(_obj0(raw(asarray(x))), pos.shape) for x in v]
        for n, j in np.ndenumerate(pos):
            q = np.unravel_index(int(j), a.shape)
            a[q] = ufunc_dispatch(ufunc, "__call__", (a[q], *[x[n] for x in vals]), {})
        return None
    if method != "__call__":
        raise Unsupported(f"ufunc method {method}")
    if name == "matmul":
        return matmul(*inputs)
    where = kw.pop("where", True)
    ins = [asarray(x) if isinstance(x, (list, tuple)) else x for x in inputs]
    if not has_sym(ins):
        with np.errstate(all="ignore"):
            r = ufunc(*[conc(x) for x in ins], **{k: v for k, v in kw.items() if k in ("dtype",)})
        r = wrap(r)
    else:
        f = UF.get(name)
        if f is None:
            raise Unsupported(f"ufunc {name} on symbolic values")
        fp = np.frompyfunc(f, ufunc.nin, 1)
        lds = [_ld_of(x) for x in ins]
        raws = [raw(x) for x in ins]
        shapes = [x.shape if isinstance(x, np.ndarray) else () for x in raws]
        if all(s == () for s in shapes):
            r = f(*[x.item() if isinstance(x, np.ndarray) else x for x in raws])
            r = r if is_sym(r) else np_scalar(r, el_dtype(r))
        else:
            bs = np.broadcast_shapes(*shapes)
            o = np.empty(bs, dtype=object)
            its = [np.broadcast_to(_obj0(x), bs) for x in raws]
            for pos in np.ndindex(*bs):
                o[pos] = f(*[t[pos] for t in its])
            if name in BOOLRES:
                ld = B1
            elif o.size == 0:
                ld = np.result_type(*lds)
                ld = F8 if name in ("divide", "sqrt") else ld
            else:
                ld = infer(o)
                if ld.kind in "iu" and any(d.kind == "f" for d in lds):
                    ld = F8
            if ld.kind == "f" and o.size:
                o = _cast(o, F8)
            r = wrap(o, ld)
    if where is not True:
        w = asarray(where)
        base = (out[0] if isinstance(out, tuple) else out) if out is not None else zeros(np.shape(r))
        r = where_(w, r, base)
    if out is not None:
        o = out[0] if isinstance(out, tuple) else out
        if isinstance(o, SA):
            o[...] = r
        else:
            o[...] = conc(r)
        return o
    return r


def _obj0(x):
    if isinstance(x, np.ndarray):
        return x
    r = np.empty((), dtype=object)
    r[()] = x
    return r


def ufunc_wrapper(u):
    def f(*a, **k):
        return ufunc_dispatch(u, "__call__", a, k)

    f.__name__ = u.__name__
    f.reduce = lambda a, axis=0, **k: ufunc_dispatch(u, "reduce", (a,), dict(axis=axis, **k))
    f.outer = lambda a, b, **k: ufunc_dispatch(u, "outer", (a, b), k)
    f.accumulate = lambda a, axis=0, **k: ufunc_dispatch(u, "accumulate", (a,), dict(axis=axis, **k))
    f.reduceat = lambda a, i, **k: ufunc_dispatch(u, "reduceat", (a, i), k)
    f.at = lambda *a: ufunc_dispatch(u, "at", a, {})
    return f


# ---------------------------------------------------------------- reductions
def _reduce(a, axis, keepdims, f, empty=None, ldf=None):
    """f: list of scalars -> scalar"""
    a = asarray(a)
    r = a.view(np.ndarray)
    if axis is None:
        v = f([x for x in r.flat])
        if keepdims:
            o = np.empty((1,) * a.ndim, dtype=object)
            o[...] = v
            return wrap(o)
        return v if is_sym(v) else np_scalar(v, ldf or el_dtype(v))
    if isinstance(axis, tuple):
        axis = tuple(x % a.ndim for x in axis)
        rest = [i for i in range(a.ndim) if i not in axis]
        m = np.transpose(r, rest + list(axis)).reshape([a.shape[i] for i in rest] + [-1])
    else:
        axis = axis % a.ndim
        rest = [i for i in range(a.ndim) if i != axis]
        m = np.moveaxis(r, axis, -1)
        axis = (axis,)
    o = np.empty(m.shape[:-1], dtype=object)
    for pos in np.ndindex(*o.shape):
        o[pos] = f(list(m[pos]))
    if o.ndim == 0 and not keepdims:
        v = o.item()
        return v if is_sym(v) else np_scalar(v, ldf or el_dtype(v))
    o = wrap(o, ldf or (infer(o) if o.size else a._ld))
    if keepdims:
        o = o.reshape([1 if i in axis else n for i, n in enumerate(a.shape)])
    return o


def _numeric_or(fn, a, *args, **kw):
    """Concrete array: use numpy itself (keeps its rounding)."""
    a = asarray(a)
    if not has_sym(a):
        return wrap(fn(a.numeric(), *args, **kw))
    return None


def sum_(a, axis=None, keepdims=False, dtype=None, **k):
    _no(k)
    a = asarray(a)
    if not has_sym(a):
        return wrap(np.sum(a.numeric(), axis=axis, keepdims=keepdims))

    def f(xs):
        t = 0 if a._ld.kind in "iub" else 0.0
        for x in xs:
            t = t + _ss(x)
        return t

    return _reduce(a, axis, keepdims, f)


def prod(a, axis=None, keepdims=False, **k):
    _no(k)
    a = asarray(a)
    if not has_sym(a):
        return wrap(np.prod(a.numeric(), axis=axis, keepdims=keepdims))

    def f(xs):
        t = 1
        for x in xs:
            t = t * _ss(x)
        return t

    return _reduce(a, axis, keepdims, f)


def mean(a, axis=None, keepdims=False, **k):
    _no(k)
    a = asarray(a)
    if not has_sym(a):
        return wrap(np.mean(a.numeric(), axis=axis, keepdims=keepdims))
    n = a.size if axis is None else a.shape[axis] if not isinstance(axis, tuple) else math.prod(a.shape[i] for i in axis)
    s = sum_(a, axis=axis, keepdims=keepdims)
    return s / float(n)


def average(a, axis=None, weights=None, **k):
    _no(k)
    if weights is None:
        return mean(a, axis)
    a, w = asarray(a), asarray(weights)
    if not has_sym(a) and not has_sym(w):
        return wrap(np.average(a.numeric(), axis=axis, weights=w.numeric()))
    if a.ndim != w.ndim:
        sh = [1] * a.ndim
        sh[axis] = w.shape[0]
        w = w.reshape(sh)
        tot = sum_(w)
    else:
        tot = sum_(w, axis=axis)
    return sum_(a * w, axis=axis) / tot


def _ext(fn, npf):
    def g(a, axis=None, out=None, keepdims=False, **k):
        _no(k, "initial")
        a, ini = asarray(a), k.get("initial")
        if not has_sym(a) and not is_sym(ini):
            kw = {} if ini is None else dict(initial=conc(ini))
            return wrap(npf(a.numeric(), axis=axis, keepdims=keepdims, **kw))
        if a.size == 0 and ini is None:
            raise ValueError("zero-size array to reduction operation which has no identity")

        def f(xs):
            xs = list(xs) if ini is None else [ini, *xs]
            t = xs[0]
            for x in xs[1:]:
                t = fn(t, x)
            return t

        return _reduce(a, axis, keepdims, f)

    return g


amin = _ext(smin, np.min)
amax = _ext(smax, np.max)


def ptp(a, axis=None, keepdims=False, **k):
    _no(k)
    a = asarray(a)
    if not has_sym(a):
        return wrap(np.ptp(a.numeric(), axis=axis, keepdims=keepdims))

    def f(xs):
        # all entries identical: no branching
        x0 = xs[0]
        if all((x is x0) or _same(x, x0) for x in xs):
            return 0.0 if a._ld.kind == "f" else 0
        hi = lo = x0
        for x in xs[1:]:
            hi, lo = smax(hi, x), smin(lo, x)
        r = hi - lo
        if type(r) is Num:
            l, h = r.bounds()
            # max - min is never negative
            i = core.Num.atom(r.z(), r.k, core.Fraction(0), h) if (l is None or l < 0) else r
            return i
        return r

    return _reduce(a, axis, keepdims, f)


def _same(x, y):
    if type(x) is Num and type(y) is Num:
        return x.p == y.p
    if is_sym(x) or is_sym(y):
        return False
    return x == y


def any_(a, axis=None, out=None, keepdims=False, **k):
    _no(k)
    a = asarray(a)
    if not has_sym(a):
        return wrap(np.any(a.numeric(), axis=axis, keepdims=keepdims))
    return _reduce(a, axis, keepdims, lambda xs: sor(*xs), ldf=B1)


def all_(a, axis=None, out=None, keepdims=False, **k):
    _no(k)
    a = asarray(a)
    if not has_sym(a):
        return wrap(np.all(a.numeric(), axis=axis, keepdims=keepdims))
    return _reduce(a, axis, keepdims, lambda xs: sand(*xs), ldf=B1)


def _arg(cmp, npf):
    def g(a, axis=None, **k):
        _no(k)
        a = asarray(a)
        if not has_sym(a):
            return wrap(npf(a.numeric(), axis=axis))
        if a.size == 0:
            raise ValueError("attempt to get argmax of an empty sequence")

        def f(xs):
            b = 0
            for i in range(1, len(xs)):
                if bool(cmp(xs[i], xs[b])):
                    b = i
            return b

        return _reduce(a, axis, False, f, ldf=I8)

    return g


def _lt(a, b):
    return UF["less"](a, b)


def _gt(a, b):
    return UF["greater"](a, b)


argmin = _arg(_lt, np.argmin)
argmax = _arg(_gt, np.argmax)


def _argsort_list(xs):
    idx = []
    for i, x in enumerate(xs):  # stable insertion
        j = len(idx)
        while j > 0 and bool(_lt(x, xs[idx[j - 1]])):
            j -= 1
        idx.insert(j, i)
    return idx


def _argsort_rows(xs):
    if all(len(x) == 1 for x in xs):
        return _argsort_list([x[0] for x in xs])
    idx = []

    def less(p, q):
        for x, y in zip(p, q):
            if bool(_lt(x, y)):
                return True
            if bool(_lt(y, x)):
                return False
        return False

    for i, x in enumerate(xs):
        j = len(idx)
        while j > 0 and less(x, xs[idx[j - 1]]):
            j -= 1
        idx.insert(j, i)
    return idx


def sort(a, axis=-1, kind=None, **k):
    _no(k)
    a = asarray(a)
    if a.ndim == 0:
        raise np.exceptions.AxisError(axis, 0)
    if not has_sym(a):
        return wrap(np.sort(a.numeric(), axis=axis))
    if axis is None:
        a, axis = a.ravel(), 0
    m = np.moveaxis(a.view(np.ndarray), axis, -1)
    o = np.empty(m.shape, dtype=object)
    for pos in np.ndindex(*m.shape[:-1]):
        xs = list(m[pos])
        for j, i in enumerate(_argsort_list(xs)):
            o[pos + (j,)] = xs[i]
    return wrap(np.moveaxis(o, -1, axis), a._ld)


def argsort(a, axis=-1, **k):
    _no(k)
    a = asarray(a)
    if not has_sym(a):
        return wrap(np.argsort(a.numeric(), axis=axis, kind="stable"))
    if a.ndim != 1:
        if axis is None:
            return argsort(a.ravel())
        m = np.moveaxis(a.view(np.ndarray), axis, -1)
        o = np.empty(m.shape, dtype=int)
        for pos in np.ndindex(*m.shape[:-1]):
            o[pos] = _argsort_list(list(m[pos]))
        return wrap(np.moveaxis(o, -1, axis))
    return wrap(np.array(_argsort_list(list(a.view(np.ndarray))), dtype=int))


def cumsum(a, axis=None, **k):
    _no(k)
    a = asarray(a)
    if not has_sym(a):
        return wrap(np.cumsum(a.numeric(), axis=axis))
    if axis is None:
        a, axis = a.ravel(), 0
    m = np.moveaxis(a.view(np.ndarray), axis, -1)
    o = np.empty(m.shape, dtype=object)
    for pos in np.ndindex(*m.shape[:-1]):
        t = 0
        for j, x in enumerate(m[pos]):
            t = _ss(x) if j == 0 else t + _ss(x)
            o[pos + (j,)] = t
    return wrap(np.moveaxis(o, -1, axis))


def clip(a, lo=None, hi=None, a_min=None, a_max=None, **k):
    _no(k)
    lo = a_min if lo is None else lo
    hi = a_max if hi is None else hi
    r = a
    if lo is not None:
        r = ufunc_dispatch(np.maximum, "__call__", (r, lo), {})
    if hi is not None:
        r = ufunc_dispatch(np.minimum, "__call__", (r, hi), {})
    return r


def _accumulate(ufunc, a, axis):
    m = np.moveaxis(a.view(np.ndarray), axis, -1)
    o = np.empty(m.shape, dtype=object)
    for pos in np.ndindex(*m.shape[:-1]):
        t = None
        for j, x in enumerate(m[pos]):
            t = x if t is None else ufunc_dispatch(ufunc, "__call__", (t, x), {})
            o[pos + (j,)] = t
    return wrap(np.moveaxis(o, -1, axis))


def cumprod(a, axis=None, **k):
    a = asarray(a)
    if axis is None:
        a, axis = a.ravel(), 0
    return _accumulate(np.multiply, a, axis)


def diff(a, n=1, axis=-1, prepend=None, append=None):
    a = asarray(a)
    for x, first in ((prepend, True), (append, False)):
        if x is not None:
            x = asarray(x)
            if x.ndim == 0:
                sh = list(a.shape)
                sh[axis] = 1
                x = full(tuple(sh), x)
            a = concatenate([x, a] if first else [a, x], axis=axis)
    for _ in range(n):
        s1 = [slice(None)] * a.ndim
        s2 = [slice(None)] * a.ndim
        s1[axis] = slice(1, None)
        s2[axis] = slice(None, -1)
        a = a[tuple(s1)] - a[tuple(s2)]
    return a


def where_(c, x=None, y=None):
    c = asarray(c)
    if x is None and y is None:
        return nonzero(c)
    if not has_sym((c, x, y)):
        return wrap(np.where(conc(c), conc(x), conc(y)))
    if c._ld.kind != "b":
        c = c != 0
    rx, ry, rc = (_obj0(raw(asarray(v)) if isinstance(v, (list, tuple)) else raw(v)) for v in (x, y, c))
    bs = np.broadcast_shapes(rc.shape, rx.shape, ry.shape)
    rc, rx, ry = (np.broadcast_to(v, bs) for v in (rc, rx, ry))
    ld = np.result_type(_ld_of(x), _ld_of(y)) if not isinstance(x, (list, tuple)) else None
    o = np.empty(bs, dtype=object)
    for pos in np.ndindex(*bs):
        o[pos] = ite(rc[pos], rx[pos], ry[pos])
    if o.size and (ld is None or ld.kind == "f"):
        ld = infer(o) if ld is None else ld
        if ld.kind == "f":
            o = _cast(o, F8)
            o = o if isinstance(o, np.ndarray) else _obj0(o)
    return scalar_or(o, ld) if o.ndim == 0 else wrap(o, ld)


def nonzero(a):
    a = asarray(a)
    m = np.array([bool(x) for x in a.view(np.ndarray).flat], dtype=bool).reshape(a.shape)
    return tuple(wrap(x) for x in np.nonzero(m))


def flatnonzero(a):
    return nonzero(asarray(a).ravel())[0]


def count_nonzero(a, axis=None, **k):
    _no(k)
    a = asarray(a)
    if not has_sym(a):
        return np.count_nonzero(a.numeric(), axis=axis)
    return sum_(a != 0 if a._ld.kind != "b" else a, axis=axis)


# ---------------------------------------------------------------- linear algebra
def dot(a, b):
    return matmul(a, b) if np.ndim(a) and np.ndim(b) else asarray(a) * b


def matmul(a, b):
    a, b = asarray(a), asarray(b)
    if not has_sym(a) and not has_sym(b):
        return wrap(np.matmul(a.numeric(), b.numeric()))
    if a.ndim == 1 and b.ndim == 1:
        if a.shape != b.shape:
            raise ValueError("matmul: shape mismatch")
        return sum_(a * b)
    if a.ndim == 2 and b.ndim == 1:
        return sum_(a * b, axis=1)
    if a.ndim == 1 and b.ndim == 2:
        return sum_(a[:, None] * b, axis=0)
    if a.ndim == 2 and b.ndim == 2:
        return sum_(a[:, :, None] * b[None], axis=1)
    raise Unsupported("matmul nd")


def cross(a, b, axis=-1, **k):
    _no(k)
    a, b = asarray(a), asarray(b)
    if not has_sym(a) and not has_sym(b):
        return wrap(np.cross(a.numeric(), b.numeric(), axis=axis))
    if a.shape[-1] == 2 and b.shape[-1] == 2:
        return a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0]
    bs = np.broadcast_shapes(a.shape, b.shape)
    A, B = np.broadcast_to(raw(a), bs), np.broadcast_to(raw(b), bs)
    m = UF["multiply"]
    s = UF["subtract"]
    o = np.empty(bs, dtype=object)
    for pos in np.ndindex(*bs[:-1]):
        p, q = A[pos], B[pos]
        o[pos + (0,)] = s(m(p[1], q[2]), m(p[2], q[1]))
        o[pos + (1,)] = s(m(p[2], q[0]), m(p[0], q[2]))
        o[pos + (2,)] = s(m(p[0], q[1]), m(p[1], q[0]))
    return wrap(o, F8)


def norm(x, ord=None, axis=None, keepdims=False):
    x = asarray(x)
    if not has_sym(x):
        return wrap(np.linalg.norm(x.numeric(), ord=ord, axis=axis, keepdims=keepdims))
    if ord not in (None, 2):
        raise Unsupported("norm order")
    return _reduce(x, axis, keepdims, core.norm)


def einsum(sub, *ops, **k):
    _no(k)
    ops = [asarray(o) for o in ops]
    if not has_sym(ops):
        return wrap(np.einsum(sub, *[o.numeric() for o in ops]))
    ins, _, out = sub.replace(" ", "").partition("->")
    ins = ins.split(",")
    dims = {}
    for s, o in zip(ins, ops):
        for c, n in zip(s, o.shape):
            dims[c] = n
    if not _:
        out = "".join(sorted(c for c in dims if sub.count(c) == 1))
    summed = [c for c in dims if c not in out]
    res = np.empty([dims[c] for c in out], dtype=object)
    for pos in itertools.product(*[range(dims[c]) for c in out]):
        env = dict(zip(out, pos))
        t = 0.0
        for sp in itertools.product(*[range(dims[c]) for c in summed]):
            env.update(zip(summed, sp))
            v = 1.0
            for s, o in zip(ins, ops):
                v = UF["multiply"](v, o.view(np.ndarray)[tuple(env[c] for c in s)])
            t = UF["add"](t, v)
        res[pos] = t
    return scalar_or(res, F8) if res.ndim == 0 else wrap(res, F8)


# ---------------------------------------------------------------- comparisons of arrays
def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    if not has_sym((a, b)):
        return wrap(np.isclose(conc(asarray(a)), conc(asarray(b)), rtol=rtol, atol=atol, equal_nan=equal_nan))
    a, b = asarray(a), asarray(b)
    d = ufunc_dispatch(np.absolute, "__call__", (a - b,), {})
    if rtol == 0:
        lim = atol
    else:
        lim = ufunc_dispatch(np.absolute, "__call__", (b,), {}) * rtol + atol
    return ufunc_dispatch(np.less_equal, "__call__", (d, lim), {})


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = isclose(a, b, rtol, atol, equal_nan)
    v = all_(r)
    return v if is_sym(v) else bool(v)


def array_equal(a, b, equal_nan=False):
    a, b = asarray(a), asarray(b)
    if a.shape != b.shape:
        return False
    v = all_(a == b)
    return v if is_sym(v) else bool(v)


def isin(a, t, assume_unique=False, invert=False, **k):
    _no(k)
    if not has_sym((a, t)):
        return wrap(np.isin(conc(asarray(a)), conc(asarray(t)), invert=invert))
    a, t = asarray(a), asarray(t)
    ts = list(t.view(np.ndarray).flat)
    o = np.empty(a.shape, dtype=object)
    for pos, x in np.ndenumerate(a.view(np.ndarray)):
        v = sor(*[UF["equal"](x, y) for y in ts])
        o[pos] = snot(v) if invert else v
    return wrap(o, B1)


def unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    _no(k)
    a = asarray(a)
    if not has_sym(a):
        r = np.unique(a.numeric(), return_index=return_index, return_inverse=return_inverse, return_counts=return_counts, axis=axis)
        return wrap(r)
    rows = axis is not None and a.ndim > 1
    if rows:
        m = np.moveaxis(a.view(np.ndarray), axis, 0)
        xs = [tuple(np.ravel(r)) for r in m]
    else:
        xs = [(x,) for x in a.view(np.ndarray).flat]
    order = _argsort_rows(xs)
    vals, first, inv, cnt = [], [], [0] * len(xs), []
    for i in order:
        if vals and bool(sand(*[UF["equal"](x, y) for x, y in zip(xs[i], vals[-1])])):
            cnt[-1] += 1
            first[-1] = min(first[-1], i)
        else:
            vals.append(xs[i])
            first.append(i)
            cnt.append(1)
        inv[i] = len(vals) - 1
    if rows:
        o = np.empty((len(vals),) + m.shape[1:], dtype=object)
        for j, i in enumerate(first):
            o[j] = m[i]
        o = np.moveaxis(o, 0, axis)
    else:
        o = np.empty(len(vals), dtype=object)
        o[:] = [v[0] for v in vals]
    res = [wrap(o, a._ld)]
    if return_index:
        res.append(wrap(np.array(first)))
    if return_inverse:
        res.append(wrap(np.array(inv) if rows else np.array(inv).reshape(a.shape)))
    if return_counts:
        res.append(wrap(np.array(cnt)))
    return res[0] if len(res) == 1 else tuple(res)


def interp(x, xp, fp, left=None, right=None, period=None):
    if not has_sym((x, xp, fp)):
        return wrap(np.interp(conc(asarray(x)), conc(asarray(xp)), conc(asarray(fp)), left, right))
    x_, xp, fp = asarray(x), asarray(xp), asarray(fp)
    X, P, V = x_.view(np.ndarray), list(xp.view(np.ndarray)), list(fp.view(np.ndarray))
    o = np.empty(X.shape, dtype=object)
    for pos, v in np.ndenumerate(X):
        if bool(UF["less"](v, P[0])):
            o[pos] = V[0] if left is None else left
            continue
        if bool(UF["greater_equal"](v, P[-1])):
            o[pos] = V[-1] if right is None or bool(UF["equal"](v, P[-1])) else right
            continue
        j = 0
        while bool(UF["greater_equal"](v, P[j + 1])):
            j += 1
        t = UF["divide"](UF["subtract"](v, P[j]), UF["subtract"](P[j + 1], P[j]))
        o[pos] = UF["add"](V[j], UF["multiply"](t, UF["subtract"](V[j + 1], V[j])))
    return scalar_or(o, F8) if o.ndim == 0 else wrap(o, F8)


def searchsorted(a, v, side="left", **k):
    _no(k)
    if not has_sym((a, v)):
        return wrap(np.searchsorted(conc(asarray(a)), conc(v), side=side))
    A = list(asarray(a).view(np.ndarray))
    va = asarray(v)
    o = np.empty(va.shape, dtype=object)
    for pos, x in np.ndenumerate(va.view(np.ndarray)):
        j = 0
        while j < len(A) and bool(UF["less" if side == "left" else "less_equal"](A[j], x)):
            j += 1
        o[pos] = j
    return scalar_or(o, I8) if o.ndim == 0 else wrap(o, I8)


# ---------------------------------------------------------------- structure
def _promote(*xs):
    lds = [d for d in (_leaf_ld(x) for x in xs) if d is not None]
    if not lds:
        return None
    ks = {d.kind for d in lds}
    if "O" in ks or ("U" in ks and len(ks) > 1):
        return np.dtype(object)
    return np.result_type(*lds)


def _leaf_ld(x):
    if isinstance(x, SA):
        return x._ld
    if isinstance(x, np.ndarray):
        return x.dtype
    return None


def _seq(xs):
    return [x if isinstance(x, SA) else asarray(x) for x in xs]


def _joiner(npf):
    def g(arrs, *a, **k):
        arrs = _seq(arrs)
        k.pop("dtype", None)
        r = npf([raw(x) for x in arrs], *[conc(x) for x in a], **k)
        ld = _promote(*arrs)
        r = wrap(r, ld)
        if ld is not None and ld.kind == "f" and r.size and any(x._ld.kind != "f" for x in arrs):
            r = r.astype(ld)
        return r

    g.__name__ = npf.__name__
    return g


concatenate = _joiner(np.concatenate)
vstack = _joiner(np.vstack)
hstack = _joiner(np.hstack)
dstack = _joiner(np.dstack)
column_stack = _joiner(np.column_stack)
stack = _joiner(np.stack)


def _first(npf):
    """Structural function of one array."""

    def g(a, *args, **k):
        a = asarray(a)
        r = npf(raw(a), *[_ia(x) for x in args], **{kk: _ia(v) for kk, v in k.items()})
        if isinstance(r, (list, tuple)):
            return type(r)(wrap(x, a._ld) for x in r)
        return wrap(r, a._ld) if isinstance(r, np.ndarray) else np_scalar(r, a._ld)

    g.__name__ = npf.__name__
    return g


def _ia(x):
    if isinstance(x, SA):
        return SA._index1(x)
    if type(x) is Num:
        return int(x)
    if isinstance(x, (list, tuple)):
        return type(x)(_ia(y) for y in x)
    return x


STRUCT = [
    "reshape", "ravel", "transpose", "swapaxes", "moveaxis", "squeeze", "expand_dims", "broadcast_to", "atleast_1d",
    "atleast_2d", "atleast_3d", "flip", "fliplr", "flipud", "roll", "rot90", "repeat", "tile", "take", "delete",
    "split", "array_split", "hsplit", "vsplit", "dsplit", "copy", "diagonal", "rollaxis", "resize", "tril", "triu",
    "take_along_axis", "compress_", "permute_dims", "matrix_transpose",
]


def copy(a, **k):
    return asarray(a).copy()


def insert(arr, obj, values, axis=None):
    arr = asarray(arr)
    va = asarray(values)
    r = np.insert(raw(arr), _ia(obj), raw(va.astype(arr._ld)) if va.size else raw(va), axis=axis)
    return wrap(r, arr._ld)


def append(arr, values, axis=None):
    arr, values = asarray(arr), asarray(values)
    if axis is None:
        return concatenate((arr.ravel(), values.ravel()))
    return concatenate((arr, values), axis=axis)


def meshgrid(*xs, **k):
    xs = _seq(xs)
    return tuple(wrap(r, x._ld) for r, x in zip(np.meshgrid(*[raw(x) for x in xs], **k), xs))


def broadcast_arrays(*xs, **k):
    _no(k)
    xs = _seq(xs)
    return tuple(wrap(r, x._ld) for r, x in zip(np.broadcast_arrays(*[raw(x) for x in xs]), xs))


def shape(a):
    return a.shape if isinstance(a, np.ndarray) else asarray(a).shape if not np.isscalar(a) else ()


def ndim(a):
    if is_sym(a):
        return 0
    if isinstance(a, np.ndarray):
        return a.ndim
    if has_sym(a) or _nested_has_array(a):
        return asarray(a).ndim
    return np.ndim(a)


def size(a, axis=None):
    a = asarray(a)
    return a.size if axis is None else a.shape[axis]


def trapezoid(y, x=None, dx=1.0, axis=-1):
    y = asarray(y)
    if y.ndim != 1:
        raise Unsupported("trapezoid")
    d = diff(asarray(x)) if x is not None else dx
    return sum_(d * (y[1:] + y[:-1]) * 0.5)


def bincount(x, weights=None, minlength=0):
    x = [int(v) for v in asarray(x)]
    n = max([minlength] + [v + 1 for v in x])
    r = [0 if weights is None else 0.0] * n
    for j, v in enumerate(x):
        r[v] = r[v] + (1 if weights is None else asarray(weights)[j])
    return array(r, dtype=int if weights is None else float)


def var(a, axis=None, ddof=0, keepdims=False, **k):
    _no(k)
    a = asarray(a)
    d = a - mean(a, axis=axis, keepdims=True)
    n = a.size if axis is None else a.shape[axis]
    return sum_(d * d, axis=axis, keepdims=keepdims) / (n - ddof)


def std(a, *p, **k):
    return ufunc_dispatch(np.sqrt, "__call__", (var(a, *p, **k),), {})


def median(a, axis=None, keepdims=False, **k):
    _no(k)
    a = asarray(a)
    if axis is None:
        a, axis = a.ravel(), 0
    s = np.moveaxis(sort(a, axis=axis).view(np.ndarray), axis, 0)
    n = len(s)
    s = wrap(s.copy(), a._ld)
    return (s[(n - 1) // 2] + s[n // 2]) * 0.5


def trace(a, *p, **k):
    a = asarray(a)
    return sum_(array([a[i, i] for i in range(min(a.shape))]))


def diag(a, k=0):
    a = asarray(a)
    if a.ndim == 2:
        return wrap(np.diag(a.view(np.ndarray), k).copy(), a._ld)
    o = zeros((len(a) + abs(k),) * 2, dtype=a._ld)
    for i in range(len(a)):
        o[i + max(0, -k), i + max(0, k)] = a[i]
    return o


def piecewise(x, conds, funcs, *a, **k):
    x = asarray(x)
    conds = list(conds)
    fs = list(funcs)
    r = zeros(x.shape, dtype=x._ld)
    if len(fs) == len(conds) + 1:
        r = where_(asarray(conds[0]) == asarray(conds[0]), fs[-1](x) if callable(fs[-1]) else fs[-1], r)
    for c, f in zip(conds, fs):
        r = where_(c, f(x, *a, **k) if callable(f) else f, r)
    return r


def _ids(i):
    return asarray(i)


def ravel_multi_index(mi, dims, mode="raise", order="C"):
    mi = [asarray(i) for i in mi]
    dims = [int(d) for d in dims]
    w = [1]
    for d in dims[::-1][:-1] if order == "C" else dims[:-1]:
        w.append(w[-1] * d)
    w = w[::-1] if order == "C" else w
    r = mi[0] * w[0]
    for i, q in zip(mi[1:], w[1:]):
        r = r + i * q
    return r


def tensordot(a, b, axes=2):
    a, b = asarray(a), asarray(b)
    if isinstance(axes, int):
        ax, bx = list(range(a.ndim - axes, a.ndim)), list(range(axes))
    else:
        ax, bx = ([x] if isinstance(x, int) else list(x) for x in axes)
    ax, bx = [x % a.ndim for x in ax], [x % b.ndim for x in bx]
    ra = [i for i in range(a.ndim) if i not in ax]
    rb = [i for i in range(b.ndim) if i not in bx]
    n = int(np.prod([a.shape[i] for i in ax]))
    A = a.transpose(ra + ax).reshape(-1, n)
    Bm = b.transpose(bx + rb).reshape(n, -1)
    return matmul(A, Bm).reshape(tuple(a.shape[i] for i in ra) + tuple(b.shape[i] for i in rb))


def outer(a, b):
    a, b = asarray(a).ravel(), asarray(b).ravel()
    return a.reshape(-1, 1) * b.reshape(1, -1)


def argwhere(a):
    return stack(nonzero(a), axis=-1)


def _set(op):
    def f(a, b, assume_unique=False, return_indices=False):
        if return_indices:
            raise Unsupported("return_indices")
        a, b = asarray(a).ravel(), asarray(b).ravel()
        if op == "union":
            return unique(concatenate([a, b]))
        ua = unique(a) if not assume_unique or op != "diff" else a
        if op == "xor":
            ub = unique(b)
            return sort(concatenate([ua[isin(ua, ub, invert=True)], ub[isin(ub, ua, invert=True)]]))
        return ua[isin(ua, b, invert=op == "diff")]

    return f


def digitize(x, bins, right=False):
    return searchsorted(bins, x, side="left" if right else "right")


def pad(a, width, mode="constant", constant_values=0, **k):
    a = asarray(a)
    w = np.broadcast_to(conc(asarray(width)), (a.ndim, 2))
    if mode == "constant":
        pos = np.pad(np.arange(a.size).reshape(a.shape), w, constant_values=-1)
    else:
        pos = np.pad(np.arange(a.size).reshape(a.shape), w, mode=mode, **k)
    flat = a.ravel()
    if mode == "constant":
        flat = concatenate([flat, asarray([constant_values]).astype(a._ld)])
    return flat[pos]


def block(x):
    def depth(y):
        return 1 + depth(y[0]) if isinstance(y, list) else 0

    d = depth(x)

    def go(y, lvl):
        if not isinstance(y, list):
            a = asarray(y)
            while a.ndim < d:
                a = a[None]
            return a
        return concatenate([go(z, lvl + 1) for z in y], axis=-(d - lvl))

    return go(x, 0)


def choose(i, cs, **k):
    i = asarray(i)
    r = cs[0]
    for j, c in enumerate(cs):
        r = where_(i == j, c, r)
    return r


def convolve(a, v, mode="full"):
    a, v = asarray(a), asarray(v)
    if len(v) > len(a):
        a, v = v, a
    n, m = len(a), len(v)
    out = [sum_(array([a[i] * v[k - i] for i in range(max(0, k - m + 1), min(n, k + 1))])) for k in range(n + m - 1)]
    if mode == "same":
        out = out[(m - 1) // 2 :][:n]
    elif mode == "valid":
        out = out[m - 1 : n]
    return array(out)


def putmask(a, mask, v):
    v = asarray(v)
    if v.ndim and v.shape != a.shape:
        v = resize(v, a.shape)
    a[...] = where_(mask, v, a)


def resize(a, shape):
    a = asarray(a)
    return wrap(np.resize(np.arange(a.size), shape) if False else raw(a).ravel()[np.resize(np.arange(a.size), shape)], a._ld)


def gradient(f, *v, **k):
    f = asarray(f)
    if f.ndim != 1 or v or k:
        raise Unsupported("gradient")
    return concatenate([f[1:2] - f[:1], (f[2:] - f[:-2]) * 0.5, f[-1:] - f[-2:-1]])


def ediff1d(a, to_end=None, to_begin=None):
    r = diff(asarray(a).ravel())
    if to_begin is not None:
        r = concatenate([atleast_1d(to_begin), r])
    return r if to_end is None else concatenate([r, atleast_1d(to_end)])


def kron(a, b):
    a, b = asarray(a), asarray(b)
    if a.ndim == b.ndim == 1:
        return outer(a, b).ravel()
    raise Unsupported("kron")


def partition(a, kth, axis=-1, **k):
    return sort(a, axis=axis)


def nditer(a, *p, **k):
    return iter(list(asarray(a).ravel()))


def put_along_axis(a, ind, v, axis):
    ind = conc(asarray(ind))
    v = np.broadcast_to(raw(asarray(v)), ind.shape)
    for pos in np.ndindex(*ind.shape):
        q = list(pos)
        q[axis] = int(ind[pos])
        a[tuple(q)] = v[pos]


def det(a):
    a = asarray(a)
    if a.ndim > 2:
        return stack([det(x) for x in a])
    n = a.shape[0]
    if n == 1:
        return a[0, 0]
    r = 0.0
    for j in range(n):
        m = a[1:][:, [c for c in range(n) if c != j]]
        r = r + (-1.0) ** j * a[0, j] * det(m)
    return r


def inv(a):
    a = asarray(a)
    n = a.shape[0]
    d = det(a)
    o = [[(-1.0) ** (i + j) * (det(a[[r for r in range(n) if r != j]][:, [c for c in range(n) if c != i]]) if n > 1 else 1.0) / d for j in range(n)] for i in range(n)]
    return array(o)


def solve(a, b):
    return matmul(inv(a), asarray(b))


def isscalar(x):
    return is_sym(x) or np.isscalar(x)


def ndenumerate(a):
    a = asarray(a)
    for pos in np.ndindex(*a.shape):
        yield pos, a[pos]


def fromiter(it, dtype, count=-1):
    return array(list(it), dtype=dtype)


def put(a, ind, v, **k):
    _no(k)
    a.ravel()[asarray(ind)] = v


def copyto(dst, src, where=True, **k):
    _no(k)
    if where is True:
        dst[...] = src
    else:
        dst[...] = where_(where, src, dst)


def round_(a, decimals=0, **k):
    _no(k)
    return asarray(a).round(decimals) if isinstance(a, np.ndarray) else (round(a, decimals) if not is_sym(a) else _uns("round"))


def _uns(x):
    raise Unsupported(x)


def nan_to_num(a, *x, **k):
    if has_sym(a):
        return asarray(a).copy()
    return wrap(np.nan_to_num(conc(asarray(a)), *x, **k))


def select(conds, choices, default=0):
    r = default
    for c, v in reversed(list(zip(conds, choices))):
        r = where_(c, v, r)
    return r


def lexsort(keys, axis=-1):
    if not has_sym(keys):
        return wrap(np.lexsort(conc(keys)))
    ks = [list(raw(asarray(k))) for k in keys]
    n = len(ks[0])
    idx = []

    def less(i, j):
        for k in reversed(ks):
            if bool(_lt(k[i], k[j])):
                return True
            if bool(_lt(k[j], k[i])):
                return False
        return False

    for i in range(n):
        j = len(idx)
        while j > 0 and less(i, idx[j - 1]):
            j -= 1
        idx.insert(j, i)
    return wrap(np.array(idx, dtype=int))


def apply_along_axis(f, axis, arr, *a, **k):
    arr = asarray(arr)
    m = np.moveaxis(arr.view(np.ndarray), axis, -1)
    res = [f(wrap(m[pos].copy(), arr._ld), *a, **k) for pos in np.ndindex(*m.shape[:-1])]
    r = array(res)
    return r.reshape(m.shape[:-1] + r.shape[1:])


def vectorize(f, *a, **k):
    def g(*xs):
        xs = _seq(xs)
        bs = np.broadcast_shapes(*[x.shape for x in xs])
        o = np.empty(bs, dtype=object)
        its = [np.broadcast_to(raw(x), bs) for x in xs]
        for pos in np.ndindex(*bs):
            o[pos] = f(*[t[pos] for t in its])
        return wrap(o)

    return g


def _if_sym(f, r):
    """The symbolic version when needed, numpy otherwise."""
    g = _generic(r)

    def h(*a, **k):
        return f(*a, **k) if has_sym(a) or has_sym(k) else g(*a, **k)

    h.__name__ = r.__name__
    return h


class _Linalg:
    norm = staticmethod(norm)
    det = staticmethod(lambda *a: _if_sym(det, np.linalg.det)(*a))
    inv = staticmethod(lambda *a: _if_sym(inv, np.linalg.inv)(*a))
    solve = staticmethod(lambda *a: _if_sym(solve, np.linalg.solve)(*a))
    LinAlgError = np.linalg.LinAlgError

    def __getattr__(self, n):
        f = getattr(np.linalg, n)
        return _generic(f)


def _generic(f):
    def g(*a, **k):
        if has_sym(a) or has_sym(k):
            raise Unsupported(f"numpy.{f.__name__} on symbolic values")
        with np.errstate(all="ignore"):
            return wrap(f(*[conc(x) for x in a], **{kk: conc(v) for kk, v in k.items()}))

    g.__name__ = getattr(f, "__name__", "f")
    return g


OVR = dict(
    array=array, asarray=asarray, asanyarray=asanyarray, ascontiguousarray=ascontiguousarray, full=full, zeros=zeros,
    ones=ones, empty=empty, full_like=full_like, zeros_like=zeros_like, ones_like=ones_like, empty_like=empty_like,
    arange=arange, linspace=linspace, sum=sum_, prod=prod, mean=mean, average=average, min=amin, max=amax, amin=amin,
    amax=amax, ptp=ptp, any=any_, all=all_, argmin=argmin, argmax=argmax, sort=sort, argsort=argsort, cumsum=cumsum,
    clip=clip, diff=diff, where=where_, nonzero=nonzero, flatnonzero=flatnonzero, count_nonzero=count_nonzero, dot=dot,
    vdot=dot, inner=dot, matmul=matmul, cross=cross, einsum=einsum, isclose=isclose, allclose=allclose,
    array_equal=array_equal, isin=isin, in1d=isin, unique=unique, interp=interp, searchsorted=searchsorted,
    concatenate=concatenate, vstack=vstack, row_stack=vstack, hstack=hstack, dstack=dstack, column_stack=column_stack,
    stack=stack, insert=insert, append=append, meshgrid=meshgrid, broadcast_arrays=broadcast_arrays, shape=shape,
    ndim=ndim, size=size, isscalar=isscalar, ndenumerate=ndenumerate, fromiter=fromiter, put=put, copyto=copyto,
    round=round_, around=round_, nan_to_num=nan_to_num, select=select, lexsort=lexsort, copy=copy,
    apply_along_axis=apply_along_axis, vectorize=vectorize, linalg=_Linalg(), concat=concatenate, abs=None, nanmax=amax,
    nanmin=amin,
)
for _n in STRUCT:
    if hasattr(np, _n) and _n not in OVR:
        OVR[_n] = _first(getattr(np, _n))
OVR["abs"] = ufunc_wrapper(np.absolute)
for _n, _f0 in dict(
    cumprod=cumprod, bincount=bincount, var=var, std=std, median=median, trace=trace, diag=diag, piecewise=piecewise, ravel_multi_index=ravel_multi_index,
    tensordot=tensordot, outer=outer, argwhere=argwhere, intersect1d=_set("intersect"), setdiff1d=_set("diff"), union1d=_set("union"), setxor1d=_set("xor"),
    digitize=digitize, pad=pad, block=block, choose=choose, convolve=convolve, putmask=putmask, resize=resize, gradient=gradient, ediff1d=ediff1d,
    kron=kron, partition=partition, nditer=nditer, put_along_axis=put_along_axis, trapezoid=trapezoid,
).items():
    OVR[_n] = _if_sym(_f0, getattr(np, _n))
OVR["nansum"], OVR["nanmean"] = sum_, mean
OVR["nanargmin"], OVR["nanargmax"] = _if_sym(argmin, np.nanargmin), _if_sym(argmax, np.nanargmax)
OVR["putmask"], OVR["put_along_axis"] = putmask, put_along_axis
OVR["compress"] = lambda c, a, axis=None, **k: asarray(a)[asarray(c)] if axis in (None, 0) else _uns("compress")
OVR["extract"] = lambda c, a: asarray(a)[asarray(c)]


class _R:
    """np.r_ / np.c_"""

    def __init__(self, n):
        self.n = n

    def __getitem__(self, key):
        key = key if isinstance(key, tuple) else (key,)
        if self.n == "c":
            return column_stack([asarray(k) for k in key])
        out = []
        for k in key:
            if isinstance(k, slice):
                out.append(arange(k.start or 0, k.stop, k.step or 1))
            elif isinstance(k, str):
                raise Unsupported("np.r_ directive")
            else:
                out.append(atleast_1d(k))
        return concatenate(out)


def atleast_1d(x):
    a = asarray(x)
    return a if a.ndim else a.reshape(1)


OVR["r_"] = _R("r")
OVR["c_"] = _R("c")


def function_dispatch(func, args, kwargs):
    """numpy called on SA from code that holds the real numpy module."""
    name = func.__name__
    if func.__module__ and "linalg" in func.__module__:
        return getattr(OVR["linalg"], name)(*args, **kwargs)
    f = OVR.get(name)
    if f is None:
        f = _generic(func)
    return f(*args, **kwargs)


class _Module:
    """The stand-in for the numpy module."""

    __name__ = "numpy"

    def __init__(self):
        self._c = {}

    def __getattr__(self, n):
        c = self.__dict__["_c"]
        if n in c:
            return c[n]
        if n in OVR:
            v = OVR[n]
        else:
            r = getattr(np, n)
            if isinstance(r, np.ufunc):
                v = ufunc_wrapper(r)
            elif isinstance(r, type) or not callable(r):
                v = r
            else:
                v = _generic(r)
        c[n] = v
        return v


module = _Module()
