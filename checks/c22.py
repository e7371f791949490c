"""Fusing cells of a 2D mesh."""
from .lib import *
from .meshes import *

BOUNDS = "2D meshes of 4-6 triangles, quads, pixels and polygons on a 3x3 or 4x3 grid of nodes in any coordinate plane with symbolic position and size, scalar/vector data; every pair and selected larger groups (in any order, as indices or masks, one or two groups)"

G43 = [(i, j, 0) for j in range(3) for i in range(4)]
QUADS = M([("quad", (0, 1, 5, 4)), ("quad", (1, 2, 6, 5)), ("quad", (2, 3, 7, 6)), ("quad", (4, 5, 9, 8)), ("quad", (5, 6, 10, 9)), ("quad", (6, 7, 11, 10))], G43, 2)
FINE = {"quads": QUADS, "mixed": MESHES["mixed-2d"], "pixels": MESHES["pixels-2d"]}
RING = M([("quad", (4 * j + i, 4 * j + i + 1, 4 * j + i + 5, 4 * j + i + 4)) for j in range(3) for i in range(3)], [(i, j, 0) for j in range(4) for i in range(4)], 2)


def boundary(m, ids):
    """The boundary of the union, as one cycle of nodes (None: not a single cycle)."""
    cnt = {}
    for i in ids:
        for a, b in facets(*m.cells[i]):
            cnt.setdefault(frozenset((a, b)), []).append((a, b))
    edges = [tuple(k) for k, v in cnt.items() if len(v) == 1]
    nb = {}
    for a, b in edges:
        nb.setdefault(a, []).append(b)
        nb.setdefault(b, []).append(a)
    if any(len(v) != 2 for v in nb.values()):
        return None
    cyc = [edges[0][0]]
    prev = None
    while True:
        nxt = [v for v in nb[cyc[-1]] if v != prev]
        prev = cyc[-1]
        if nxt[0] == cyc[0] and len(cyc) > 2:
            break
        if nxt[0] in cyc:
            nxt = nxt[1:] or nxt
            if nxt[0] == cyc[0]:
                break
        cyc.append(nxt[0])
    if len(cyc) != len(nb):
        return None
    # the same way round as the cells
    return cyc if (cyc[0], cyc[1]) in [v[0] for v in cnt.values() if len(v) == 1] else cyc[::-1]


def place(W, m, axes):
    np = W.np
    s = [W.real(f"s{a}", 1 / 4, 4) for a in range(2)]
    o = [W.real(f"o{a}", -9, 9) for a in range(3)]
    k = W.real("skew", -1, 1)
    P = []
    for r in m.ref:
        p = [o[0], o[1], o[2]]
        p[axes[0]] = p[axes[0]] + s[0] * float(r[0]) + k * float(r[1])
        p[axes[1]] = p[axes[1]] + s[1] * float(r[1])
        P.append(p)
    return P


def fuse(W, mesh="quads", groups=((0, 1),), axes=(0, 1), mask=False, ghost=False):
    np, pv, pvg = W.np, W.pv, W.pvg
    m = RING if mesh == "ring" else FINE[mesh]
    if any(k == "pixel" for k, _ in m.cells) and False:
        pass
    P = place(W, m, axes)
    n = len(m.cells)
    u = m.build(W, np.array(P))
    cs, cv, pd = W.arr("cs", n, 0, 99, kind="i"), W.arr("cv", (n, 3), -5, 5), W.arr("pd", len(P), -5, 5)
    u.cell_data["s"], u.cell_data["v"], u.point_data["p"] = cs.copy(), cv.copy(), pd.copy()
    u.user_dict["k"] = {"a": 1}
    if ghost:
        u.cell_data["vtkGhostType"] = np.zeros(n, dtype=np.uint8)
    arg = [np.array([i in g for i in range(n)]) if mask else list(g) for g in groups]
    arg = arg[0] if len(groups) == 1 else arg
    cyc = [boundary(m, g) for g in groups]
    r = pvg.fuse_cells(u, arg)
    first = {(min(g) if mask else g[0]): c for g, c in zip(groups, cyc)}
    gone = {i for g in groups for i in g} - set(first)
    keep = [i for i in range(n) if i not in gone]
    W.check("cells", r.n_cells == len(keep))
    W.check("cell types", [int(t) for t in r.celltypes] == [7 if i in first else VTK[m.cells[i][0]] for i in keep])
    W.eq("cell data", r.cell_data["s"], np.array([cs[i] for i in keep]))
    W.eq("vector cell data", r.cell_data["v"], np.array([list(cv[i]) for i in keep]))
    W.check("metadata", dict(r.user_dict["k"]) == {"a": 1})
    conn, off = [int(v) for v in r.cell_connectivity], [int(v) for v in r.offset]
    used = set()
    for q, i in enumerate(keep):
        got = conn[off[q] : off[q + 1]]
        want = list(first[i] if i in first else m.cells[i][1])
        used |= set(want)
        W.check("size", len(got) == len(want))
        if len(got) != len(want):
            continue
        # the same cycle, from any node, either way for the fused cell
        rots = [want[k:] + want[:k] for k in range(len(want))]
        rots = rots if i in first else [want]
        R = [list(r.points[j]) for j in got]
        W.check("fused cell bounded by the outline of its cells" if i in first else "other cells kept", W.or_(*[W.and_(*[same_point(W, a, P[b], 1e-6) for a, b in zip(R, x)]) for x in rots]))
        for j, pt in zip(got, R):
            W.check("point data", W.or_(*[W.and_(same_point(W, pt, P[b], 1e-6), W.abs(r.point_data["p"][j] - pd[b]) <= 1e-6) for b in want]))
    W.check("no unused node", r.n_points == len(used))
    W.eq("input kept", u.points, np.array(P))
    W.check("cells of the input kept", u.n_cells == n and [int(t) for t in u.celltypes] == [VTK[k] for k, _ in m.cells])


def pairs(W, mesh="quads"):
    """Any two cells: fused when they share an edge, refused otherwise."""
    m = FINE[mesh]
    n = len(m.cells)
    a, b = W.choice("a", list(range(n))), W.choice("b", list(range(n)))
    W.assume(a != b)
    cyc = boundary(m, (a, b))
    if cyc is None or len(cyc) >= sum(len(facets(*m.cells[i])) for i in (a, b)):
        np, pvg = W.np, W.pvg
        P = place(W, m, (0, 1))
        u = m.build(W, np.array(P))
        touching = set(sum([list(f) for f in facets(*m.cells[a])], [])) & set(sum([list(f) for f in facets(*m.cells[b])], []))
        if not touching:
            W.check("refused", W.raises(ValueError, lambda: pvg.fuse_cells(u, [a, b])))
        return
    fuse(W, mesh, ((a, b),))


def refused(W):
    np, pvg = W.np, W.pvg
    case = W.choice("case", ["ring", "3d", "apart"])
    if case == "3d":
        m = MESHES["hexas"]
        P, _ = m.points(W)
        u = m.build(W, P)
        W.check("refused", W.raises(NotImplementedError, lambda: pvg.fuse_cells(u, [0, 1])))
        return
    u = RING.build(W, np.array(place(W, RING, (0, 1))))
    ids = [0, 1, 2, 3, 5, 6, 7, 8] if case == "ring" else [0, 8]
    W.check("refused", W.raises(ValueError, lambda: pvg.fuse_cells(u, ids)))


def instances(tier):
    q = tier == "quick"
    out = [
        Instance("pairs-quads", pairs, "any two of 6 quads", mesh="quads", replays=6),
        Instance("pairs-mixed", pairs, "any two of 5 cells", mesh="mixed", replays=6),
        Instance("row", fuse, "3 quads", groups=((2, 1, 0),), axes=(0, 2)),
        Instance("block", fuse, "4 quads around a node", groups=((4, 0, 3, 1),), axes=(1, 2)),
        Instance("all", fuse, "6 quads", groups=((5, 4, 3, 2, 1, 0),)),
        Instance("mask", fuse, "mask", groups=((1, 2, 4),), mask=True),
        Instance("two-groups", fuse, "two groups", groups=((3, 0), (2, 5)), axes=(2, 0)),
        Instance("two-masks", fuse, "two groups of different sizes", groups=((1, 0, 3), (5, 4))),
        Instance("mixed-group", fuse, "triangles and polygon", mesh="mixed", groups=((1, 2, 4),)),
        Instance("pixels", fuse, "pixels", mesh="pixels", groups=((1, 0),)),
        Instance("ell", fuse, "5 of 9 quads", mesh="ring", groups=((0, 1, 2, 5, 8),)),
        Instance("hidden", fuse, "with hidden flags", groups=((0, 1),), ghost=True),
        Instance("refused", refused, "ring, volume, separate cells"),
    ]
    if not q:
        out += [Instance(f"ring-{i}", fuse, "8 of 9 quads around one", mesh="ring", groups=(tuple(j for j in range(9) if j != i),)) for i in (0, 1, 3, 8)]
        out += [Instance("three-groups", fuse, "three groups", mesh="ring", groups=((0, 1, 3), (2, 5), (8, 7)))]
    return out
