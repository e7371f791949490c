"""Loads /repo's modules, from their current source, against the symbolic numpy/pyvista."""
from __future__ import annotations

import ast
import builtins
import importlib
import math
import os
import types

from . import stubs, symnp, sympv
from .core import is_sym, norm, sabs, smax, sor

REPO = os.environ.get("SYMX_REPO", "/repo")


class _Calls(ast.NodeTransformer):
    """float(x) keeps symbolic values."""

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == "float" and len(n.args) == 1 and not n.keywords:
            n.func = ast.copy_location(ast.Name("__symx_float__", ast.Load()), n.func)
        return n


def _float(x):
    if isinstance(x, symnp.SA) and x.size == 1:
        x = x.view(symnp.np.ndarray).flat[0]
    if is_sym(x):
        return x * 1.0
    return float(x)


class _Math:
    """The math module on symbolic values."""

    def __getattr__(self, n):
        r = getattr(math, n)
        if not callable(r):
            return r
        alias = {"fabs": "absolute", "pow": "power", "atan2": "arctan2"}.get(n, n)

        def f(*a, **k):
            if not any(is_sym(x) or isinstance(x, symnp.SA) for x in a):
                return r(*a, **k)
            if n == "floor":
                return a[0].__floor__()
            if n == "ceil":
                return a[0].__ceil__()
            if n == "trunc":
                return a[0].__trunc__()
            if n == "isclose":
                rel, ab = k.get("rel_tol", 1e-9), k.get("abs_tol", 0.0)
                d = sabs(a[0] - a[1])
                return sor(d <= rel * smax(sabs(a[0]), sabs(a[1])), d <= ab)
            if n == "hypot":
                return norm(a)
            if n == "dist":
                return norm([x - y for x, y in zip(*a)])
            if n in ("isnan", "isinf"):
                return False
            if n == "isfinite":
                return True
            if n == "fsum":
                return sum(a[0])
            return getattr(symnp.module, alias)(*a, **k)

        return f


class Loader:
    def __init__(self, root=None, package="pvgridder"):
        self.root = root or REPO
        self.package = package
        self.mods = {}
        self.files = {}
        self._b = dict(vars(builtins))
        self._b["__import__"] = self._import
        self._b["__symx_float__"] = _float
        self.over = {"numpy": symnp.module, "pyvista": sympv.module, "math": _Math()}
        self.over.update(stubs.modules())

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        rel = name.replace(".", "/")
        path = os.path.join(self.root, rel)
        if os.path.isdir(path):
            file, pkg = os.path.join(path, "__init__.py"), name
        else:
            file, pkg = path + ".py", name.rpartition(".")[0]
        if not os.path.exists(file):
            raise ImportError(f"No module named {name!r}", name=name)
        m = types.ModuleType(name)
        m.__file__ = file
        m.__package__ = pkg
        m.__builtins__ = self._b
        if pkg == name:
            m.__path__ = [path]
        self.mods[name] = m
        with open(file) as f:
            src = f.read()
        self.files[file] = name
        code = compile(_Calls().visit(ast.parse(src)), file, "exec")
        try:
            exec(code, m.__dict__)
        except BaseException:
            del self.mods[name]
            raise
        parent, _, child = name.rpartition(".")
        if parent:
            setattr(self.load(parent), child, m)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            base = globals["__package__"]
            for _ in range(level - 1):
                base = base.rpartition(".")[0]
            full = f"{base}.{name}" if name else base
        else:
            full = name
        if full == self.package or full.startswith(self.package + "."):
            m = self.load(full)
            if not fromlist:
                return self.load(full.partition(".")[0])
            for n in fromlist:
                if n != "*" and not hasattr(m, n):
                    try:
                        self.load(f"{full}.{n}")
                    except ImportError:
                        pass
            return m
        if full in self.over:
            return self.over[full] if (fromlist or "." not in full) else self.over[full.partition(".")[0]]
        top = full.partition(".")[0]
        if top in ("scipy", "shapely", "gmsh", "vtk", "vtkmodules") and not fromlist:
            return self.over.get(top) or importlib.import_module(full)
        m = importlib.import_module(full)
        if fromlist:
            return m
        return importlib.import_module(top)
