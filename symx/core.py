"""Symbolic scalars, path exploration and the SMT back end.

A number is either an ordinary Python/numpy scalar (concrete: it keeps its IEEE value) or a
`Num`: a polynomial with exact rational coefficients over *atoms*, where an atom is an SMT
term (an input variable, an if-then-else, a quotient, a square root, ...).  Arithmetic on
`Num` is exact real (or mathematical integer) arithmetic.  A truth value that depends on the
inputs is an `SBool`.  Python's own control flow asks `bool(SBool)`, which is where paths fork:
the engine asks the solver which sides are feasible and re-executes the harness for each.
"""
from __future__ import annotations

import math
import random
import time
from fractions import Fraction

import numpy as np
import z3


class Unsupported(Exception):
    """The encoding has no meaning for this operation (never a verdict)."""


class PathEnd(BaseException):
    """Leaves the current path (infeasible, assumption broken, budget used up)."""


class Budget(BaseException):
    """The exploration budget of this instance is used up."""


ENG: "Engine" = None  # current engine


def is_sym(x) -> bool:
    return type(x) is Num or type(x) is SBool


def to_frac(x) -> Fraction:
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (bool, np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, np.integer)):
        return Fraction(int(x))
    f = float(x)
    if math.isinf(f) or math.isnan(f):
        raise Unsupported("inf/nan in exact arithmetic")
    return Fraction(f)


def frac_z3(f: Fraction):
    return z3.RealVal(str(f)) if f.denominator != 1 else z3.RealVal(f.numerator)


class Num:
    """Polynomial over atoms; never constant (constants are plain scalars)."""

    __slots__ = ("p", "k", "_z")
    __array_priority__ = 1000.0

    def __init__(self, p, k):
        self.p = p
        self.k = k
        self._z = None

    # -- construction -------------------------------------------------
    @staticmethod
    def make(p, k):
        p = {m: c for m, c in p.items() if c != 0}
        if not p or (len(p) == 1 and () in p):
            c = p.get((), Fraction(0))
            return int(c) if (k == "i" and c.denominator == 1) else float(c)
        return Num(p, k)

    @staticmethod
    def atom(z, k, lo=None, hi=None):
        i = ENG.atom_id(z, k, lo, hi)
        return Num({(i,): Fraction(1)}, k)

    def key(self):
        return tuple(sorted(self.p.items()))

    def z(self):
        if self._z is None:
            terms = []
            for m, c in sorted(self.p.items()):
                fs = [ENG.atoms[i] for i in m]
                if self.k != "i":
                    fs = [z3.ToReal(f) if f.sort() == z3.IntSort() else f for f in fs]
                t = None
                for f in fs:
                    t = f if t is None else t * f
                if self.k == "i":
                    cv = z3.IntVal(int(c))
                else:
                    cv = frac_z3(c)
                terms.append(cv if t is None else (t if c == 1 else cv * t))
            self._z = terms[0] if len(terms) == 1 else z3.Sum(terms)
        return self._z

    def bounds(self):
        """Sound interval (or None, None)."""
        lo = hi = Fraction(0)
        for m, c in self.p.items():
            l, h = Fraction(1), Fraction(1)
            if len(m) == 2 and m[0] == m[1]:
                a, b = ENG.abounds[m[0]]
                if a is None or b is None:
                    l, h = Fraction(0), None
                else:
                    h = max(a * a, b * b)
                    l = Fraction(0) if a <= 0 <= b else min(a * a, b * b)
            else:
                for i in m:
                    a, b = ENG.abounds[i]
                    if a is None or b is None or l is None or h is None:
                        if len(m) == 1:
                            l, h = a, b
                        else:
                            l = h = None
                        break
                    c4 = (l * a, l * b, h * a, h * b)
                    l, h = min(c4), max(c4)
            if c < 0:
                l, h = h, l
            if lo is not None:
                lo = None if l is None else lo + c * l
            if hi is not None:
                hi = None if h is None else hi + c * h
            if lo is None and hi is None:
                break
        return lo, hi

    # -- arithmetic ---------------------------------------------------
    @staticmethod
    def _lift(o):
        if type(o) is Num:
            return o.p, o.k
        if type(o) is SBool:
            n = o.num()
            return (n.p, n.k) if type(n) is Num else ({(): to_frac(n)}, "i")
        if isinstance(o, (bool, np.bool_, int, np.integer)):
            return {(): Fraction(int(o))}, "i"
        if isinstance(o, (float, np.floating, Fraction)):
            return {(): to_frac(o)}, "f"
        return None

    def _bin(self, o, f):
        if isinstance(o, np.ndarray):
            return NotImplemented
        l = Num._lift(o)
        if l is None:
            return NotImplemented
        q, k = l
        return f(self.p, q, "i" if self.k == "i" and k == "i" else "f")

    @staticmethod
    def _addp(a, b, k):
        r = dict(a)
        for m, c in b.items():
            r[m] = r.get(m, 0) + c
        return Num.make(r, k)

    @staticmethod
    def _subp(a, b, k):
        r = dict(a)
        for m, c in b.items():
            r[m] = r.get(m, 0) - c
        return Num.make(r, k)

    @staticmethod
    def _mulp(a, b, k):
        r = {}
        for m, c in a.items():
            for n, d in b.items():
                mn = tuple(sorted(m + n)) if m and n else (m or n)
                r[mn] = r.get(mn, 0) + c * d
        return Num.make(r, k)

    def __add__(self, o):
        return self._bin(o, Num._addp)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, Num._subp)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b, k: Num._subp(b, a, k))

    def __mul__(self, o):
        return self._bin(o, Num._mulp)

    __rmul__ = __mul__

    def __neg__(self):
        return Num({m: -c for m, c in self.p.items()}, self.k)

    def __pos__(self):
        return self

    def __truediv__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return divide(self, o)

    def __rtruediv__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return divide(o, self)

    def __floordiv__(self, o):
        return floordiv(self, o)

    def __rfloordiv__(self, o):
        return floordiv(o, self)

    def __mod__(self, o):
        return self - o * floordiv(self, o)

    def __pow__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if not is_sym(o):
            if float(o) == int(o) and 0 <= int(o) <= 8:
                r = 1
                for _ in range(int(o)):
                    r = self * r
                return r
            if float(o) == 0.5:
                return sqrt(self)
            if float(o) == -0.5:
                return divide(1.0, sqrt(self))
            if float(o) == int(o) and -4 <= int(o) < 0:
                return divide(1.0, self ** (-int(o)))
        raise Unsupported("general power")

    def __rpow__(self, o):
        raise Unsupported("symbolic exponent")

    def __abs__(self):
        return sabs(self)

    # -- comparisons --------------------------------------------------
    def _cmp(self, o, op):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if isinstance(o, (float, np.floating)) and (math.isinf(o) or math.isnan(o)):
            if math.isnan(o):
                return op == "!="
            return {"<": o > 0, "<=": o > 0, ">": o < 0, ">=": o < 0, "==": False, "!=": True}[op]
        l = Num._lift(o)
        if l is None:
            if op == "==":
                return False
            if op == "!=":
                return True
            return NotImplemented
        d = Num._subp(self.p, l[0], "i" if self.k == "i" and l[1] == "i" else "f")
        return cmp0(d, op)

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        return self._cmp(o, "==")

    def __ne__(self, o):
        return self._cmp(o, "!=")

    def __bool__(self):
        r = self != 0
        return bool(r)

    # -- leaving the symbolic domain: fork on the value ----------------
    def __hash__(self):
        return hash(concretize(self))

    def __index__(self):
        if self.k != "i":
            raise TypeError("float object cannot be interpreted as an integer")
        return int(concretize(self))

    def __int__(self):
        if self.k == "i":
            return int(concretize(self))
        return int(concretize(ite(self >= 0, floor(self), -floor(-self))))

    def __float__(self):
        if self.k == "i":
            return float(concretize(self))
        raise Unsupported("float() of a symbolic real")

    def __round__(self, n=None):
        if self.k == "i":
            return self
        if n is None:
            return rint(self)
        return rint(self * 10**n) * (1.0 / 10**n)

    def __floor__(self):
        return floor(self)

    def __ceil__(self):
        return -floor(-self)

    def __trunc__(self):
        return ite(self >= 0, floor(self), -floor(-self))

    def __format__(self, spec):
        return repr(self)

    def __repr__(self):
        return f"Num({z3.simplify(self.z())})"

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    # -- numpy scalar look-alike ---------------------------------------
    ndim = 0
    shape = ()
    size = 1

    @property
    def dtype(self):
        return np.dtype("int64" if self.k == "i" else "float64")

    @property
    def T(self):
        return self

    def item(self):
        return self

    def tolist(self):
        return self

    def copy(self):
        return self

    def astype(self, t, **kw):
        t = np.dtype(t)
        if t.kind == "f":
            return Num(self.p, "f")
        if t.kind in "iu" and self.k == "i":
            return self
        if t.kind == "b":
            return self != 0
        raise Unsupported(f"astype {t}")

    def any(self, *a, **k):
        return self != 0

    all = any

    def sum(self, *a, **k):
        return self

    mean = max = min = squeeze = ravel0 = sum

    def clip(self, lo=None, hi=None, **k):
        r = self
        if lo is not None:
            r = smax(r, lo)
        if hi is not None:
            r = smin(r, hi)
        return r

    def sqrt(self):
        return sqrt(self)

    def conjugate(self):
        return self

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import symnp

        return symnp.ufunc_dispatch(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import symnp

        return symnp.function_dispatch(func, args, kwargs)


def cmp0(d, op):
    """Truth value of  d <op> 0."""
    if type(d) is not Num:
        d = float(d) if not isinstance(d, int) else d
        return {"<": d < 0, "<=": d <= 0, ">": d > 0, ">=": d >= 0, "==": d == 0, "!=": d != 0}[op]
    lo, hi = d.bounds()
    if op == "<":
        if hi is not None and hi < 0:
            return True
        if lo is not None and lo >= 0:
            return False
    elif op == "<=":
        if hi is not None and hi <= 0:
            return True
        if lo is not None and lo > 0:
            return False
    elif op == ">":
        if lo is not None and lo > 0:
            return True
        if hi is not None and hi <= 0:
            return False
    elif op == ">=":
        if lo is not None and lo >= 0:
            return True
        if hi is not None and hi < 0:
            return False
    else:
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return op == "!="
    # factor common monomial-free scaling: normalise sign of leading coefficient
    z = d.z()
    zero = z3.IntVal(0) if d.k == "i" else z3.RealVal(0)
    e = {
        "<": lambda: z < zero,
        "<=": lambda: z <= zero,
        ">": lambda: z > zero,
        ">=": lambda: z >= zero,
        "==": lambda: z == zero,
        "!=": lambda: z != zero,
    }[op]()
    return SBool(e)


class SBool:
    __slots__ = ("e",)
    __array_priority__ = 1000.0
    ndim = 0
    shape = ()
    size = 1
    dtype = np.dtype(bool)

    def __init__(self, e):
        self.e = e

    @staticmethod
    def make(e):
        if isinstance(e, (bool, np.bool_)):
            return bool(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return SBool(e)

    def __bool__(self):
        return ENG.decide(self.e)

    def __and__(self, o):
        return sand(self, o) if isinstance(o, (SBool, bool, np.bool_)) else self._arith(o, "&")

    __rand__ = __and__

    def __or__(self, o):
        return sor(self, o) if isinstance(o, (SBool, bool, np.bool_)) else NotImplemented

    __ror__ = __or__

    def __xor__(self, o):
        return sxor(self, o) if isinstance(o, (SBool, bool, np.bool_)) else NotImplemented

    __rxor__ = __xor__

    def _arith(self, o, op):
        return NotImplemented

    def __invert__(self):
        return SBool(z3.Not(self.e))

    def logical_not(self):
        return SBool(z3.Not(self.e))

    def __eq__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if isinstance(o, (bool, np.bool_)):
            return self if o else ~self
        if isinstance(o, SBool):
            return ~sxor(self, o) if type(sxor(self, o)) is SBool else not sxor(self, o)
        return self.num() == o

    def __ne__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        r = self == o
        return (not r) if isinstance(r, bool) else ~r

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def num(self):
        return ite(self, 1, 0)

    def _ar(self, o, f):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return f(self.num(), o.num() if type(o) is SBool else o)

    def __add__(self, o):
        return self._ar(o, lambda a, b: a + b)

    __radd__ = __add__

    def __mul__(self, o):
        return self._ar(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __sub__(self, o):
        return self._ar(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._ar(o, lambda a, b: b - a)

    def __gt__(self, o):
        return self._ar(o, lambda a, b: a > b)

    def __lt__(self, o):
        return self._ar(o, lambda a, b: a < b)

    def __ge__(self, o):
        return self._ar(o, lambda a, b: a >= b)

    def __le__(self, o):
        return self._ar(o, lambda a, b: a <= b)

    def any(self, *a, **k):
        return self

    all = any

    def item(self):
        return self

    def tolist(self):
        return self

    def astype(self, t, **kw):
        return self if np.dtype(t).kind == "b" else self.num()

    def sum(self, *a, **k):
        return self.num()

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return f"SBool({z3.simplify(self.e)})"

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import symnp

        return symnp.ufunc_dispatch(ufunc, method, inputs, kw)


def zb(x):
    """z3 formula of a truth value."""
    if type(x) is SBool:
        return x.e
    if type(x) is Num:
        r = x != 0
        return zb(r)
    return z3.BoolVal(bool(x))


def sand(*xs):
    es = []
    for x in xs:
        if type(x) is Num:
            x = x != 0
        if type(x) is SBool:
            es.append(x.e)
        elif not x:
            return False
    if not es:
        return True
    return SBool(es[0] if len(es) == 1 else z3.And(*es))


def sor(*xs):
    es = []
    for x in xs:
        if type(x) is Num:
            x = x != 0
        if type(x) is SBool:
            es.append(x.e)
        elif x:
            return True
    if not es:
        return False
    return SBool(es[0] if len(es) == 1 else z3.Or(*es))


def snot(x):
    if type(x) is SBool:
        return SBool(z3.Not(x.e))
    if type(x) is Num:
        return x == 0
    return not x


def sxor(a, b):
    if type(a) is not SBool and type(b) is not SBool:
        return bool(a) != bool(b)
    if type(a) is not SBool:
        a, b = b, a
    if type(b) is not SBool:
        return snot(a) if b else a
    return SBool(z3.Xor(a.e, b.e))


def numz(x, k):
    if type(x) is SBool:
        x = x.num()
    if type(x) is Num:
        z = x.z()
        if k == "f" and z.sort() == z3.IntSort():
            z = z3.ToReal(z)
        return z
    if k == "i":
        return z3.IntVal(int(x))
    return frac_z3(to_frac(x))


def kind(x):
    if type(x) is Num:
        return x.k
    if type(x) is SBool or isinstance(x, (bool, np.bool_, int, np.integer)):
        return "i"
    return "f"


def bnd(x):
    if type(x) is Num:
        return x.bounds()
    if type(x) is SBool:
        return Fraction(0), Fraction(1)
    f = to_frac(x)
    return f, f


def ite(c, a, b):
    if type(c) is not SBool:
        return a if c else b
    if a is b:
        return a
    ba = isinstance(a, (bool, np.bool_, SBool))
    bb = isinstance(b, (bool, np.bool_, SBool))
    if ba and bb:
        return SBool.make(z3.simplify(z3.If(c.e, zb(a), zb(b))))
    if isinstance(a, str) or isinstance(b, str):
        return a if bool(c) else b
    if not is_sym(a) and not is_sym(b):
        fa, fb = float(a), float(b)
        if fa == fb and kind(a) == kind(b):
            return a
        if math.isnan(fa) or math.isnan(fb) or math.isinf(fa) or math.isinf(fb):
            return a if bool(c) else b
    elif type(a) is Num and type(b) is Num and a.p == b.p:
        return a
    elif not is_sym(a) and not math.isfinite(float(a)) or not is_sym(b) and not math.isfinite(float(b)):
        return a if bool(c) else b
    k = "i" if kind(a) == "i" and kind(b) == "i" else "f"
    la, ha = bnd(a)
    lb, hb = bnd(b)
    lo = None if la is None or lb is None else min(la, lb)
    hi = None if ha is None or hb is None else max(ha, hb)
    return Num.atom(z3.If(c.e, numz(a, k), numz(b, k)), k, lo, hi)


def smax(a, b):
    if not is_sym(a) and not is_sym(b):
        return max(a, b)
    return ite(a >= b if is_sym(a) else b <= a, a, b)


def smin(a, b):
    if not is_sym(a) and not is_sym(b):
        return min(a, b)
    return ite(a <= b if is_sym(a) else b >= a, a, b)


def sabs(a):
    if type(a) is SBool:
        return a.num()
    if type(a) is not Num:
        return abs(a)
    lo, hi = a.bounds()
    if lo is not None and lo >= 0:
        return a
    if hi is not None and hi <= 0:
        return -a
    # canonical sign so that |x| and |-x| share an atom
    lead = a.p[max(a.p)]
    if lead < 0:
        a = -a
        lo, hi = (None if hi is None else -hi), (None if lo is None else -lo)
    m = None if lo is None or hi is None else max(abs(lo), abs(hi))
    z = a.z()
    zero = z3.IntVal(0) if a.k == "i" else z3.RealVal(0)
    return Num.atom(z3.If(z >= zero, z, -z), a.k, Fraction(0), m)


def divide(a, b):
    if type(a) is SBool:
        a = a.num()
    if type(b) is SBool:
        b = b.num()
    if not is_sym(b):
        if not is_sym(a):
            return float(np.float64(a) / np.float64(b))
        if float(b) == 0.0 or not math.isfinite(float(b)):
            raise Unsupported("symbolic value divided by zero/inf")
        fb = to_frac(b)
        return Num.make({m: c / fb for m, c in a.p.items()}, "f")
    if not is_sym(a) and float(a) == 0.0:
        if not bool(b == 0):
            return 0.0
        return float("nan")
    # proportional polynomials
    if type(a) is Num and set(a.p) == set(b.p):
        rs = {a.p[m] / b.p[m] for m in a.p}
        if len(rs) == 1 and not bool(b == 0):
            return float(rs.pop())
    # c * r / r with r one atom
    if type(a) is Num and len(b.p) == 1:
        (m, c), = b.p.items()
        if len(m) == 1 and all(m[0] in n for n in a.p):
            if not bool(b == 0):
                r = {}
                for n, d in a.p.items():
                    n = list(n)
                    n.remove(m[0])
                    r[tuple(n)] = r.get(tuple(n), 0) + d / c
                return Num.make(r, "f")
    if bool(b == 0):
        ENG.note_div0()
        if is_sym(a):
            if bool(a == 0):
                return float("nan")
            return float("inf") if bool(a > 0) else float("-inf")
        return float("inf") if a > 0 else float("-inf")
    q = ENG.fresh("quot", (Num(a.p, "f").key() if is_sym(a) else to_frac(a), b.key()))
    za, zb_ = numz(a, "f"), numz(b, "f")
    ENG.define(q * zb_ == za)
    la, ha = bnd(a)
    lb, hb = b.bounds()
    lo = hi = None
    if None not in (la, ha, lb, hb) and (lb > 0 or hb < 0):
        c4 = [la / lb, la / hb, ha / lb, ha / hb]
        lo, hi = min(c4), max(c4)
    return Num.atom(q, "f", lo, hi)


def floordiv(a, b):
    if is_sym(b):
        raise Unsupported("floor division by a symbolic value")
    if kind(a) == "i" and kind(b) == "i" and int(b) > 0:
        z = a.z() / z3.IntVal(int(b))  # z3 Int division floors for positive divisors
        lo, hi = a.bounds()
        return Num.atom(
            z, "i", None if lo is None else Fraction(lo // int(b)), None if hi is None else Fraction(hi // int(b))
        )
    return floor(divide(a, b)) * 1.0


def floor(a):
    """Largest integer below a symbolic value."""
    if type(a) is SBool:
        a = a.num()
    if type(a) is not Num:
        return math.floor(a)
    if a.k == "i":
        return a
    lo, hi = a.bounds()
    if lo is None or hi is None:
        raise Unsupported("floor of an unbounded value")
    n = z3.ToInt(a.z())
    return Num.atom(n, "i", Fraction(math.floor(lo)), Fraction(math.floor(hi)))


def trunc(a):
    if type(a) is not Num:
        return math.trunc(a)
    return a if a.k == "i" else ite(a >= 0, floor(a), -floor(-a))


def rint(a):
    """Nearest integer, halves to the even one."""
    if type(a) is not Num or a.k == "i":
        return a if type(a) is Num else round(a)
    f = floor(a + 0.5)
    return ite(sand(a + 0.5 == f, numz_odd(f)), f - 1, f)


def numz_odd(f):
    if type(f) is not Num:
        return bool(f % 2)
    return SBool.make(f.z() % 2 == 1)


def _fsqrt(x):
    return math.sqrt(x)


def sqrt(a):
    if type(a) is not Num:
        return float(np.sqrt(np.float64(a)))
    lo, hi = a.bounds()
    # c * x^2
    if len(a.p) == 1:
        (m, c), = a.p.items()
        if len(m) == 2 and m[0] == m[1] and c > 0:
            s = _exact_sqrt(c)
            return sabs(Num({(m[0],): Fraction(1)}, "f")) * s
    q = _perfect_square(a)
    if q is not None:
        return sabs(q)
    if not (lo is not None and lo >= 0):
        if bool(a < 0):
            return float("nan")
    r = ENG.fresh("sqrt", Num(a.p, "f").key())
    ENG.define(z3.And(r >= 0, r * r == numz(a, "f")))
    h = None if hi is None else Fraction(math.sqrt(float(hi)) * (1 + 1e-9) + 1e-12)
    l = Fraction(0) if lo is None or lo <= 0 else Fraction(max(0.0, math.sqrt(float(lo)) * (1 - 1e-9)))
    return Num.atom(r, "f", l, h)


def atan2(y, x):
    """An angle of which only the range and the order among angles are known."""
    if type(y) is not Num and type(x) is not Num:
        return math.atan2(float(y), float(x))
    zy, zx = numz(y, "f"), numz(x, "f")
    k = lambda a: Num(a.p, "f").key() if is_sym(a) else to_frac(a)  # noqa: E731
    t = ENG.fresh("atan2", (k(y), k(x)))
    if any(t.eq(o[0]) for o in ENG.angles):
        return Num.atom(t, "f", Fraction(-4), Fraction(4))
    pi = frac_z3(Fraction(math.pi))
    ENG.define(z3.And(z3.Implies(zy > 0, z3.And(t > 0, t < pi)), z3.Implies(zy < 0, z3.And(t > -pi, t < 0)), z3.Implies(zy == 0, t == z3.If(zx < 0, pi, z3.RealVal(0)))))
    for o, oy, ox in ENG.angles:
        c = zx * oy - zy * ox
        same = z3.Or(z3.And(zy > 0, oy > 0), z3.And(zy < 0, oy < 0))
        ENG.define(z3.Implies(same, z3.And((t < o) == (c > 0), (t > o) == (c < 0))))
    ENG.angles.append((t, zy, zx))
    return Num.atom(t, "f", Fraction(-4), Fraction(4))


def _exact_sqrt(c: Fraction):
    n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if n * n == c.numerator and d * d == c.denominator:
        return Fraction(n, d)
    return Fraction(math.sqrt(float(c)))


def _perfect_square(a):
    """Return q with q*q == a for a square of a linear polynomial, else None."""
    lin = {}
    for m, c in a.p.items():
        if len(m) == 2 and m[0] == m[1]:
            if c < 0:
                return None
            n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if n * n != c.numerator or d * d != c.denominator:
                return None
            lin[m[0]] = Fraction(n, d)
    if not lin:
        return None
    c0 = a.p.get((), Fraction(0))
    if c0 < 0:
        return None
    n, d = math.isqrt(c0.numerator), math.isqrt(c0.denominator)
    if n * n != c0.numerator or d * d != c0.denominator:
        return None
    first = min(lin)
    q = {(first,): lin[first]}
    for i in lin:
        if i != first:
            cr = a.p.get((min(first, i), max(first, i)), Fraction(0))
            q[(i,)] = cr / (2 * lin[first])
    if () in a.p:
        q[()] = a.p.get((first,), Fraction(0)) / (2 * lin[first])
    cand = Num.make(q, "f")
    if type(cand) is not Num:
        return None
    sq = cand * cand
    if type(sq) is Num and sq.p == a.p:
        return cand
    return None


def norm(vec):
    """Euclidean norm of a sequence of scalars."""
    vec = [v.num() if type(v) is SBool else v for v in vec]
    if not any(is_sym(v) for v in vec):
        return float(np.linalg.norm(np.array([float(v) for v in vec])))
    nz = [v for v in vec if is_sym(v) or float(v) != 0.0]
    if len(nz) == 1:
        return sabs(nz[0])
    # proportional components: |q| * const (up to the rounding of the
    # constants they were made of, far below the tolerance of the checks)
    if all(type(v) is Num for v in nz):
        top = max((abs(c) for v in nz for c in v.p.values()), default=0)
        small = top / 10**13
        ps = [{m: c for m, c in v.p.items() if abs(c) > small} for v in nz]
        ps = [p for p in ps if p]
        if not ps:
            return 0.0
        q = ps[0]
        m0 = max(q, key=lambda m: abs(q[m]))
        tot = Fraction(1)
        for p in ps[1:]:
            if set(p) != set(q):
                break
            r = p[m0] / q[m0]
            if any(abs(p[m] - r * q[m]) > small for m in q):
                break
            tot += r * r
        else:
            return sabs(Num(q, "f")) * _exact_sqrt(tot)
    s = 0.0
    for v in nz:
        s = s + v * v
    return sqrt(s)


def sign(a):
    if type(a) is not Num:
        return np.sign(a)
    if bool(a > 0):
        return 1.0
    return -1.0 if bool(a < 0) else 0.0


def trig(name, a):
    if type(a) is not Num:
        return float(getattr(np, name)(float(a)))
    if name not in ("cos", "sin"):
        raise Unsupported(f"{name} of a symbolic value")
    key = tuple(sorted((m, float(f"{float(c):.11e}")) for m, c in a.p.items()))
    c = ENG.fresh("cos", key)
    s = ENG.fresh("sin", key)
    ENG.define(z3.And(c * c + s * s == 1))
    one = Fraction(1)
    cn = Num.atom(c, "f", -one, one)
    sn = Num.atom(s, "f", -one, one)
    return cn if name == "cos" else sn


def concretize(x):
    """Fork over the feasible values of a symbolic integer/boolean."""
    if type(x) is SBool:
        return bool(x)
    if type(x) is not Num:
        return x
    if x.k != "i":
        raise Unsupported("concretising a symbolic real")
    return ENG.concretize(x)


class Obligation:
    __slots__ = ("label", "cond", "kind", "detail")

    def __init__(self, label, cond, detail=None):
        self.label = label
        self.cond = cond
        self.detail = detail


class Engine:
    """Depth-first path exploration by re-execution."""

    def __init__(self, max_paths=20000, time_limit=300.0, query_timeout_ms=20000):
        self.atoms = []
        self.abounds = []
        self._ids = {}
        self._fresh = {}
        self.max_paths = max_paths
        self.deadline = time.time() + time_limit
        self.qt = query_timeout_ms
        self.stats = dict(paths=0, queries=0, solver_s=0.0, unknown=0, forks=0, pruned=0, obligations=0, syntactic=0)
        self.inputs = {}  # name -> (z3 var, kind)
        self.ranges = {}
        self.solver = z3.Solver()
        self.solver.set("timeout", self.qt)
        self.prefix = []
        self.div0 = False

    # -- atoms ---------------------------------------------------------
    def atom_id(self, z, k, lo, hi):
        i = self._ids.get(z.get_id())
        if i is None:
            i = len(self.atoms)
            self._ids[z.get_id()] = i
            self.atoms.append(z)
            self.abounds.append((lo, hi))
        return i

    def fresh(self, tag, key):
        k = (tag, key)
        v = self._fresh.get(k)
        if v is None:
            v = z3.Real(f"{tag}!{len(self._fresh)}")
            self._fresh[k] = v
        return v

    def define(self, e):
        i = e.get_id()
        if i not in self.defs:
            self.defs[i] = e
            self.solver.add(e)
            self.model = None

    def note_div0(self):
        self.div0 = True

    # -- solver ----------------------------------------------------------
    def query(self, *extra, timeout=None):
        if time.time() > self.deadline:
            raise Budget("time")
        t = time.time()
        if timeout:
            self.solver.set("timeout", timeout)
        r = self.solver.check(*extra)
        if timeout:
            self.solver.set("timeout", self.qt)
        self.stats["queries"] += 1
        self.stats["solver_s"] += time.time() - t
        if r == z3.unknown:
            self.stats["unknown"] += 1
        return r

    def _model_says(self, e):
        if self.model is None:
            return None
        v = self.model.eval(e, model_completion=True)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None

    def decide(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        i = e.get_id()
        if i in self.known:
            return self.known[i]
        pos = len(self.trace)
        if pos < len(self.prefix):
            v, flag = self.prefix[pos]
            self.trace.append((v, flag))
            self._take(e, v)
            return v
        # new decision
        m = self._model_says(e)
        ne = z3.Not(e)
        if m is None:
            rt = self.query(e)
            if rt == z3.sat:
                self.model = self.solver.model()
            t_ok = rt != z3.unsat
            if not t_ok:
                f_ok = True
            else:
                rf = self.query(ne)
                f_ok = rf != z3.unsat
        elif m:
            t_ok = True
            f_ok = self.query(ne) != z3.unsat
        else:
            f_ok = True
            t_ok = self.query(e) != z3.unsat
        if not t_ok and not f_ok:
            raise PathEnd("infeasible")
        if t_ok and f_ok:
            # follow the side the current model satisfies when there is one
            v = True if m is None else m
            self.trace.append((v, "open"))
            self.stats["forks"] += 1
        else:
            v = t_ok
            self.trace.append((v, "forced"))
        self._take(e, v)
        return v

    def _take(self, e, v):
        c = e if v else z3.Not(e)
        self.solver.add(c)
        self.known[e.get_id()] = v
        self._keep.append(e)
        ne = z3.simplify(z3.Not(e))
        self.known[ne.get_id()] = not v
        self._keep.append(ne)
        if self.model is not None and self._model_says(c) is not True:
            self.model = None

    def assume(self, c):
        if type(c) is not SBool:
            if not c:
                raise PathEnd("assume")
            return
        e = z3.simplify(c.e)
        if z3.is_true(e):
            return
        self.solver.add(e)
        if self.model is None or self._model_says(e) is not True:
            self.model = None
            r = self.query()
            if r == z3.unsat:
                raise PathEnd("assume")
            if r == z3.sat:
                self.model = self.solver.model()

    def concretize(self, x):
        """One of the values `x` may have; the others are taken on other paths.  Every call leaves its choices in the trace."""
        z = x.z()
        tries = 0
        while True:
            pos = len(self.trace)
            if pos < len(self.prefix):
                v, flag = self.prefix[pos]
                if not isinstance(flag, tuple):
                    raise Unsupported("paths cannot be replayed")
                val = flag[1]
                self.trace.append((v, flag))
                e = z3.simplify(z == val)
                if not z3.is_true(e) and e.get_id() not in self.known:
                    self._take(e, v)
                if v:
                    return val
                continue
            tries += 1
            if tries > 1000:
                raise Unsupported("cannot concretise (no end)")
            if self.model is None:
                r = self.query()
                if r == z3.sat:
                    self.model = self.solver.model()
                elif r == z3.unsat:
                    raise PathEnd("infeasible")
                else:
                    raise Unsupported("cannot concretise (solver unknown)")
            val = self.model.eval(z, model_completion=True).as_long()
            e = z3.simplify(z == val)
            k = True if z3.is_true(e) else self.known.get(e.get_id())
            if k is False:
                self.model = None
                continue
            if k is None:
                f_ok = self.query(z3.Not(e)) != z3.unsat
                self._take(e, True)
            else:
                f_ok = False
            self.stats["forks"] += f_ok
            self.trace.append((True, ("open" if f_ok else "forced", val)))
            return val

    # -- obligations -----------------------------------------------------
    def oblige(self, label, cond, strong=None):
        """`cond` must hold; `strong` is a weaker-to-violate variant used for nicer witnesses."""
        self.stats["obligations"] += 1
        if not is_sym(cond):
            if bool(cond):
                self.stats["syntactic"] += 1
                return
            self.failed_now.append(label)
            self.obls.append((label, z3.BoolVal(False), z3.BoolVal(False)))
            return
        self.obls.append((label, zb(cond), zb(strong) if strong is not None else zb(cond)))

    def oblige_identical(self, label, pairs, tol=0.0):
        """Values whose canonical forms agree (up to rounded constants); the equality goes to the solver all the same."""
        self.stats["obligations"] += 1
        t = frac_z3(to_frac(tol))
        c = z3.And([z3.And(numz(x, "f") - numz(y, "f") <= t, numz(y, "f") - numz(x, "f") <= t) for x, y in pairs])
        self.obls.append((label, c, c))

    # -- input variables -------------------------------------------------
    def real(self, name, lo, hi):
        z = z3.Real(name)
        self.inputs[name] = (z, "f")
        lo, hi = to_frac(lo), to_frac(hi)
        self.ranges[name] = (lo, hi)
        e = z3.And(z >= frac_z3(lo), z <= frac_z3(hi))
        self.define(e)
        return Num.atom(z, "f", lo, hi)

    def int(self, name, lo, hi):
        z = z3.Int(name)
        self.inputs[name] = (z, "i")
        if lo == hi:
            return int(lo)
        self.define(z3.And(z >= lo, z <= hi))
        return Num.atom(z, "i", Fraction(lo), Fraction(hi))

    def boolean(self, name):
        z = z3.Bool(name)
        self.inputs[name] = (z, "b")
        return SBool(z)

    # -- exploration -------------------------------------------------------
    def explore(self, body, on_path):
        """Run `body()` on every feasible path.  on_path(kind, payload) after each one."""
        global ENG
        ENG = self
        complete = True
        while True:
            if self.stats["paths"] >= self.max_paths or time.time() > self.deadline:
                complete = False
                break
            self.trace = []
            self.known = {}
            self._keep = []
            self.defs = {}
            self.angles = []
            self.obls = []
            self.failed_now = []
            self.div0 = False
            self.solver.reset()
            self.solver.set("timeout", self.qt)
            self.model = None
            stop = False
            try:
                body()
                outcome = ("done", None)
            except PathEnd as e:
                outcome = ("pruned", str(e))
            except Budget:
                complete = False
                break
            except Exception as e:  # noqa: BLE001
                outcome = ("exception", e)
            self.stats["paths"] += 1
            if outcome[0] == "pruned":
                self.stats["pruned"] += 1
            try:
                stop = on_path(*outcome)
            except Budget:
                complete = False
                break
            if stop:
                break
            # backtrack
            tr = self.trace
            while tr:
                v, flag = tr[-1]
                f0 = flag[0] if isinstance(flag, tuple) else flag
                if f0 == "open":
                    break
                tr.pop()
            if not tr:
                break
            v, flag = tr[-1]
            tr[-1] = (not v, ("done", flag[1]) if isinstance(flag, tuple) else "done")
            self.prefix = tr
        ENG = self
        return complete

    # -- witnesses -----------------------------------------------------------
    def witness(self, *extra, nice=True):
        """Concrete input values satisfying the path condition and `extra`, or None."""
        if nice:
            cons = []
            for z, k in self.inputs.values():
                if k == "f":
                    cons.append(z3.IsInt(z * 16))
            if cons:
                r = self.query(*extra, *cons, timeout=1500)
                if r == z3.sat:
                    return self._extract(self.solver.model())
        r = self.query(*extra)
        if r != z3.sat:
            return None
        return self._extract(self.solver.model())

    def generic(self, seed):
        """Input values on the current path that are close to arbitrary ones: z3's own models sit at corners."""
        rnd = random.Random(str(seed))
        want = []
        for n, (z, k) in self.inputs.items():
            if k == "f" and n in self.ranges:
                lo, hi = self.ranges[n]
                t = lo + (hi - lo) * Fraction(rnd.randint(1, 127), 128)
                w = (hi - lo) / 16
                want.append(z3.And(z >= frac_z3(t - w), z <= frac_z3(t + w)))
        rnd.shuffle(want)
        kept, todo, left, model = [], [want], 12, None
        while todo and left:
            g = todo.pop()
            if not g:
                continue
            left -= 1
            if self.query(*kept, *g, timeout=1000) == z3.sat:
                model = self.solver.model()
                kept += g
            elif len(g) > 1:
                h = len(g) // 2
                todo += [g[h:], g[:h]]
        return None if model is None else self._extract(model)

    def _extract(self, m):
        out = {}
        for n, (z, k) in self.inputs.items():
            v = m.eval(z, model_completion=True)
            if k == "b":
                out[n] = bool(z3.is_true(v))
            elif k == "i":
                out[n] = v.as_long()
            elif z3.is_rational_value(v):
                out[n] = float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
            else:
                v = v.approx(20)
                out[n] = float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
        return out
