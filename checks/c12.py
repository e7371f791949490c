"""Merging structured grids along an axis."""
from .lib import *

BOUNDS = "2 grids (3 in one instance) of up to 2x2x2 cells, 2D and 3D, along every axis, all coordinates symbolic in [-8, 8], symbolic scalar, integer and vector cell data; interfaces off by at least 0.01 at one symbolic node; grids without data and with text"


def dims_of(axis, n, cross):
    d = list(cross)
    d.insert(axis, n)
    return tuple(d)


def grid(W, name, dims, face=None, axis=None):
    """All-symbolic coordinates; the first layer along `axis` is `face` when given: {index: point}."""
    np = W.np
    pts = {}
    for k in range(dims[2]):
        for j in range(dims[1]):
            for i in range(dims[0]):
                g = (i, j, k)
                if face is not None and g[axis] == 0:
                    pts[g] = face[tuple(x for a, x in enumerate(g) if a != axis)]
                else:
                    pts[g] = [W.real(f"{name}_{i}{j}{k}_{a}", -8, 8) for a in range(3)]
    P = np.array([pts[(i, j, k)] for k in range(dims[2]) for j in range(dims[1]) for i in range(dims[0])])
    return structured(W, P, dims), pts


def cells(dims):
    n = [max(1, d - 1) for d in dims]
    return [(i, j, k) for k in range(n[2]) for j in range(n[1]) for i in range(n[0])]


def last(pts, dims, axis):
    return {tuple(x for a, x in enumerate(g) if a != axis): p for g, p in pts.items() if g[axis] == dims[axis] - 1}


def joined(W, axis=0, cross=(3, 2), lens=(2, 3), bare=False):
    np, pvg = W.np, W.pvg
    ms, data, allp, off, face = [], {}, {}, 0, None
    for q, n in enumerate(lens):
        d = dims_of(axis, n, cross)
        m, pts = grid(W, f"g{q}", d, face, axis)
        face = last(pts, d, axis)
        cc = cells(d)
        s, v = W.arr(f"s{q}", len(cc), 0, 99, kind="i"), W.arr(f"v{q}", (len(cc), 3), -5, 5)
        m.cell_data["s"], m.cell_data["v"] = s.copy(), v.copy()
        # common data of different types: whole numbers in the first grid, real ones in the others
        w = W.arr(f"w{q}", len(cc), 0, 9, kind="i") if q == 0 else W.arr(f"w{q}", len(cc), -5, 5)
        m.cell_data["w"] = w.copy()
        if q == 0:
            m.cell_data["only_here"] = s.copy()
        for c, g in enumerate(cc):
            h = list(g)
            h[axis] += off
            data[tuple(h)] = (s[c], v[c], w[c])
        for g, p in pts.items():
            h = list(g)
            h[axis] += off
            allp[tuple(h)] = p
        off += n - 1
        if bare:
            m.clear_data()
        ms.append(m)
    r = pvg.merge(ms, axis=axis)
    d = dims_of(axis, off + 1, cross)
    W.check("dimensions", tuple(r.dimensions) == d)
    W.eq("nodes", r.points, np.array([allp[(i, j, k)] for k in range(d[2]) for j in range(d[1]) for i in range(d[0])]))
    if bare:
        W.check("no data", len(r.cell_data.keys()) == 0)
        return
    cc = cells(d)
    W.eq("cell data", r.cell_data["s"], np.array([data[g][0] for g in cc]))
    W.eq("vector cell data", r.cell_data["v"], np.array([list(data[g][1]) for g in cc]))
    W.eq("cell data of two types", r.cell_data["w"], np.array([data[g][2] for g in cc]))
    W.check("only common data", "only_here" not in r.cell_data)


def mismatch(W, axis=0, cross=(2, 2)):
    np, pvg = W.np, W.pvg
    d = dims_of(axis, 2, cross)
    a, pts = grid(W, "a", d)
    face = {k: list(p) for k, p in last(pts, d, axis).items()}
    keys = sorted(face)
    k = W.choice("node", keys)
    c = W.choice("component", [0, 1, 2])
    e = W.real("e", 0.01, 3.0)
    face[k][c] = face[k][c] + W.choice("sign", [1.0, -1.0]) * e
    b, _ = grid(W, "b", d, face, axis)
    W.check("grids that do not match are refused", W.raises(ValueError, pvg.merge, [a, b], axis))
    W.check("an axis is required", W.raises(ValueError, pvg.merge, [a, a]))


def instances(tier):
    q = tier == "quick"
    out = []
    for a in (0, 1, 2):
        out.append(Instance(f"3d-axis{a}", joined, "2 grids", axis=a, cross=(2, 3), lens=(2, 3) if q else (3, 4)))
        out.append(Instance(f"2d-axis{a}", joined, "2 surfaces", axis=a, cross={0: (3, 1), 1: (3, 1), 2: (1, 3)}[a], lens=(2, 3)))
        out.append(Instance(f"2d-other-axis{a}", joined, "2 surfaces", axis=a, cross={0: (1, 3), 1: (1, 2), 2: (2, 1)}[a], lens=(3, 2)))
        out.append(Instance(f"mismatch-axis{a}", mismatch, "one node of the interface is off", axis=a, cross=(2, 1) if a == 1 else (2, 2) if a == 0 else (1, 2)))
    out.append(Instance("three-bare", joined, "3 grids without data", axis=0, cross=(2, 2), lens=(2, 3, 2), bare=True))
    out.append(Instance("bare", joined, "2 surfaces without data", axis=2, cross=(3, 1), lens=(2, 2), bare=True))
    out.append(Instance("three", joined, "3 grids", axis=1, cross=(2, 2), lens=(2, 2, 3)))
    return out
