"""Shared oracles of the harnesses (independent of the code under test)."""
from __future__ import annotations

import itertools
import math

from symx.runner import Instance  # noqa: F401

METHODS = [None, "constant", "log", "log_r"]


def perc_of(n, method):
    """Relative subdivision positions for an integer resolution."""
    n = 1 if n is None else max(1, n)
    if method in (None, "constant"):
        return [i / n for i in range(n + 1)]
    if method == "log_r":
        return [math.log10(1.0 + 9.0 * i / n) for i in range(n + 1)]
    if method == "log":
        return [1.0 - math.log10(10.0 - 9.0 * i / n) for i in range(n + 1)]
    raise ValueError(method)


def resolution(W, name="res", nmax=3, explicit=True, kinds=None):
    """A symbolic resolution argument: (resolution, method, positions)."""
    kinds = kinds or (["none", "int", "explicit"] if explicit else ["none", "int"])
    kind = W.choice(name + "_kind", kinds)
    if kind == "none":
        m = W.choice(name + "_m", METHODS)
        return None, m, perc_of(None, m)
    if kind == "int":
        n = W.choice(name + "_n", list(range(1, nmax + 1)))
        m = W.choice(name + "_m", METHODS)
        return n, m, perc_of(n, m)
    if kind == "fixed":
        p = W.choice(name + "_q", [[0.0, 0.3, 1.0], [0.0, 0.125, 0.6, 1.0]])
        return p, None, p
    a = W.real(name + "_p", 0.0, 1.0)
    W.assume(W.and_(a > 1 / 64, a < 63 / 64))
    return [0.0, a, 1.0], None, [0.0, a, 1.0]


def lerp(a, b, t):
    return [x + t * (y - x) for x, y in zip(a, b)]


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def rows(a):
    return [list(r) for r in a]


def sidx(dims, i, j, k):
    """Position of grid node (i, j, k) in the point list."""
    return i + dims[0] * (j + dims[1] * k)


def has(m, k):
    return k in m.cell_data


def ghost(W, m):
    return m.cell_data["vtkGhostType"] if "vtkGhostType" in m.cell_data else W.np.zeros(m.n_cells, dtype=int)


def same_point(W, a, b, tol=0.0):
    return W.and_(*[W.abs(x - y) <= tol for x, y in zip(a, b)])


PLANES = ["xy", "yx", "xz", "zx", "yz", "zy"]


def plane_dims(plane, nl, ns):
    return {
        "xy": (nl, ns, 1), "yx": (ns, nl, 1), "xz": (nl, 1, ns), "zx": (ns, 1, nl), "yz": (1, nl, ns), "zy": (1, ns, nl),
    }[plane]


def plane_index(plane, i, j):
    """Grid index of line node i, sub-level j."""
    return {
        "xy": (i, j, 0), "yx": (j, i, 0), "xz": (i, 0, j), "zx": (j, 0, i), "yz": (0, i, j), "zy": (0, j, i),
    }[plane]


def proper_quad(W, q, eps=1e-3):
    """The four corners turn the same way in some coordinate plane (a convex quad with area)."""
    ns = [cross(sub(q[(i + 1) % 4], q[i]), sub(q[(i - 1) % 4], q[i])) for i in range(4)]
    return W.or_(*[W.and_(*[s * n[k] > eps for n in ns]) for k in range(3) for s in (1.0, -1.0)])


def quad_surface(W, kind, P):
    """One quadrilateral over 4 grid-ordered points, as a structured grid or an unstructured cell."""
    np, pv = W.np, W.pv
    if kind == "structured":
        return structured(W, P, (2, 2, 1))
    order, ct = {"quad": ([0, 1, 3, 2], 9), "pixel": ([0, 1, 2, 3], 8), "polygon": ([0, 1, 3, 2], 7)}[kind]
    return pv.UnstructuredGrid(np.array([4, *order]), np.array([ct]), P)


def structured(W, P, dims):
    np = W.np
    c = [P[:, a].reshape(dims, order="F") for a in range(3)]
    return W.pv.StructuredGrid(*c)
