"""The two worlds a harness runs in: symbolic (the solver decides) and real (replay)."""
from __future__ import annotations

import numpy as rnp

from . import core, symnp, sympv
from .core import SBool, Unsupported, is_sym, sabs, sand, smax, snot, sor
from .symnp import SA, asarray, has_sym

TOL = 1e-6
RTOL = 1e-5
MARGIN = 1e-2


class Skip(BaseException):
    """A replayed input does not satisfy the assumptions (rounding)."""


class Sym:
    sym = True

    def __init__(self, eng, pvg):
        self.e = eng
        self.np = symnp.module
        self.pv = sympv.module
        self.pvg = pvg
        self.note = {}

    # inputs
    def real(self, name, lo, hi):
        return self.e.real(name, lo, hi)

    def int(self, name, lo, hi):
        return self.e.int(name, lo, hi)

    def bool(self, name):
        return self.e.boolean(name)

    def flag(self, name):
        return bool(self.e.boolean(name))

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[int(self.e.int(name, 0, len(options) - 1))]

    def arr(self, name, shape, lo, hi, kind="f"):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        o = rnp.empty(shape, dtype=object)
        for pos in rnp.ndindex(*shape):
            nm = name + "_" + "_".join(map(str, pos))
            o[pos] = self.e.real(nm, lo, hi) if kind == "f" else (self.e.int(nm, lo, hi) if kind == "i" else self.e.boolean(nm))
        return symnp.wrap(o, rnp.dtype({"f": float, "i": int, "b": bool}[kind]))

    def assume(self, c):
        if isinstance(c, SA):
            c = symnp.all_(c)
        self.e.assume(c)

    # logic that does not fork
    def and_(self, *c):
        return sand(*[self._b(x) for x in c])

    def or_(self, *c):
        return sor(*[self._b(x) for x in c])

    def not_(self, c):
        return snot(self._b(c))

    def implies(self, a, b):
        return sor(snot(self._b(a)), self._b(b))

    def iff(self, a, b):
        a, b = self._b(a), self._b(b)
        return sand(sor(snot(a), b), sor(snot(b), a))

    def ite(self, c, a, b):
        return core.ite(self._b(c), a, b)

    def min(self, *x):
        r = x[0]
        for y in x[1:]:
            r = core.smin(r, y)
        return r

    def max(self, *x):
        r = x[0]
        for y in x[1:]:
            r = core.smax(r, y)
        return r

    def abs(self, x):
        return sabs(x)

    @staticmethod
    def _b(x):
        if isinstance(x, SA):
            return symnp.all_(x)
        return x if is_sym(x) else bool(x)

    # obligations
    def check(self, label, cond):
        self.e.oblige(label, self._b(cond))

    def eq(self, label, a, b, tol=TOL):
        a, b = asarray(a), asarray(b)
        if a.shape != b.shape:
            self.e.oblige(f"{label}: shape {a.shape} != {b.shape}", False)
            return
        if a.size == 0:
            return
        if (a._ld.kind in "OU") or (b._ld.kind in "OU"):
            self.e.oblige(label, self._b(a == b))
            return
        cs, ss, ident = [], [], []
        for x, y in zip(a.view(rnp.ndarray).flat, b.view(rnp.ndarray).flat):
            if not is_sym(x) and not is_sym(y):
                x_, y_ = float(x), float(y)
                ok = x_ == y_ or abs(x_ - y_) <= tol or (x_ != x_ and y_ != y_)
                if not ok:
                    self.e.oblige(label, False)
                    return
                continue
            if (not is_sym(x) and float(x) != float(x)) or (not is_sym(y) and float(y) != float(y)):
                self.e.oblige(label + ": nan", False)
                return
            d = symnp.UF["subtract"](x, y)
            if is_sym(d):
                ad = sabs(d)
                cs.append(symnp.UF["less_equal"](ad, tol))
                ss.append(symnp.UF["less_equal"](ad, MARGIN))
            elif abs(float(d)) > tol:
                self.e.oblige(label, False)
                return
            else:
                # identical polynomials: still put to the solver
                ident.append((x, y))
        if cs:
            self.e.oblige(label, sand(*cs), sand(*ss))
        if ident:
            self.e.oblige_identical(label, ident, tol)
        elif not cs:
            self.e.oblige(label, True)

    def le(self, label, a, b, tol=TOL):
        c = symnp.UF["less_equal"](a, b + tol)
        s = symnp.UF["less_equal"](a, b + MARGIN)
        self.e.oblige(label, c, s)

    def raises(self, excs, fn, *a, **k):
        try:
            fn(*a, **k)
        except Unsupported:
            raise
        except excs:
            return True
        return False

    def known(self, x):
        """A structural truth value: must be concrete."""
        return bool(x)

    def values(self, a):
        return a

    def val(self, x):
        """Concrete value (forks)."""
        return sympv.plain(x) if isinstance(x, SA) else core.concretize(x)


class Real:
    sym = False

    def __init__(self, values, pvg):
        import pyvista

        self.v = values
        self.np = rnp
        self.pv = pyvista
        self.pvg = pvg
        self.failed = []
        self.note = {}

    def real(self, name, lo, hi):
        v = self.v.get(name)
        return float(v) if v is not None else float(min(max(0.0, lo), hi))

    def int(self, name, lo, hi):
        v = self.v.get(name)
        return int(v) if v is not None else int(lo)

    def bool(self, name):
        return bool(self.v.get(name, False))

    flag = bool

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[self.int(name, 0, len(options) - 1)]

    def arr(self, name, shape, lo, hi, kind="f"):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        o = rnp.empty(shape, dtype={"f": float, "i": int, "b": bool}[kind])
        for pos in rnp.ndindex(*shape):
            nm = name + "_" + "_".join(map(str, pos))
            o[pos] = {"f": self.real, "i": self.int, "b": lambda n, *_: Real.bool(self, n)}[kind](nm, lo, hi)
        return o

    def assume(self, c):
        if not rnp.all(c):
            raise Skip()

    def and_(self, *c):
        return all(bool(rnp.all(x)) for x in c)

    def or_(self, *c):
        return any(bool(rnp.all(x)) for x in c)

    def not_(self, c):
        return not bool(rnp.all(c))

    def implies(self, a, b):
        return (not bool(rnp.all(a))) or bool(rnp.all(b))

    def iff(self, a, b):
        return bool(rnp.all(a)) == bool(rnp.all(b))

    def ite(self, c, a, b):
        return a if bool(rnp.all(c)) else b

    def min(self, *x):
        return min(x)

    def max(self, *x):
        return max(x)

    def abs(self, x):
        return abs(x)

    def check(self, label, cond):
        if not bool(rnp.all(cond)):
            self.failed.append(label)

    def eq(self, label, a, b, tol=TOL):
        a, b = rnp.asarray(a), rnp.asarray(b)
        if a.shape != b.shape:
            self.failed.append(f"{label}: shape {a.shape} != {b.shape}")
            return
        if a.size == 0:
            return
        if a.dtype.kind in "OU" or b.dtype.kind in "OU":
            if not bool((a == b).all()):
                self.failed.append(label)
            return
        if not rnp.allclose(a.astype(float), b.astype(float), rtol=1e-6, atol=10 * tol, equal_nan=True):
            self.failed.append(label)

    def le(self, label, a, b, tol=TOL):
        if not a <= b + 10 * tol + 1e-6 * abs(b):
            self.failed.append(label)

    def raises(self, excs, fn, *a, **k):
        try:
            fn(*a, **k)
        except excs:
            return True
        return False

    def known(self, x):
        return bool(x)

    def values(self, a):
        return a

    def val(self, x):
        return x
