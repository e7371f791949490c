"""Boundary polygons of surfaces."""
from .lib import *
from .meshes import *
from .c22 import place

BOUNDS = "surfaces of 2-24 quads, triangles, pixels and polygons in any coordinate plane with symbolic position, size and skew: one or several parts, with holes, islands in holes and holes in islands; closed surfaces; boundaries given as lines in any order and direction; boundaries requested as filled polygons"
ASSUMPTIONS = ["boundary loops do not touch each other at a node", "with holes: loops do not cross each other in the encoding of `contains` (GEOS)"]


def grid(n, m, out=()):
    """n x m quads without those of `out`."""
    ref = [(i, j, 0) for j in range(m + 1) for i in range(n + 1)]
    cells = [("quad", (j * (n + 1) + i, j * (n + 1) + i + 1, (j + 1) * (n + 1) + i + 1, (j + 1) * (n + 1) + i)) for j in range(m) for i in range(n) if (i, j) not in out]
    return M(cells, ref, 2)


def sq(a, b):
    return [(i, j) for i in range(a, b) for j in range(a, b)]


SURF = {
    "one": grid(3, 2),
    "ell": grid(3, 3, [(1, 1), (2, 1), (1, 2), (2, 2)]),
    "two": grid(5, 2, [(2, 0), (2, 1)]),
    "hole": grid(3, 3, [(1, 1)]),
    "two-holes": grid(5, 3, [(1, 1), (3, 1)]),
    "wide-hole": grid(4, 4, sq(1, 3)),
    "island": grid(5, 5, [c for c in sq(1, 4) if c != (2, 2)]),
    "holed-island": grid(7, 7, [c for c in sq(1, 6) if c not in sq(2, 5)] + [(3, 3)]),
    "parts-with-holes": grid(7, 3, [(3, 0), (3, 1), (3, 2), (1, 1), (5, 1)]),
    # a part in the notch of another one
    "notch": grid(5, 3, [(1, 1), (2, 1), (3, 1), (1, 2), (3, 2)]),
    "around": M([("quad", (0, 1, 3, 2)), ("quad", (0, 4, 5, 1)), ("quad", (4, 6, 7, 5)), ("quad", (8, 9, 10, 11))],
                [(0, 0, 0), (1, 1, 0), (0, 8, 0), (1, 8, 0), (9, 0, 0), (8, 1, 0), (9, 8, 0), (8, 8, 0), (2, 2, 0), (7, 2, 0), (7, 8, 0), (2, 8, 0)], 2),
    "mixed": MESHES["mixed-2d"],
    "apart": MESHES["apart-2d"],
    "pixels": MESHES["pixels-2d"],
}
NEST = {  # sizes (in nodes) of each shell and of its holes
    "one": [(10, [])], "two": [(8, []), (8, [])], "hole": [(12, [4])], "two-holes": [(16, [4, 4])], "wide-hole": [(16, [8])], "island": [(20, [12]), (4, [])],
    "holed-island": [(28, [20]), (12, [4])], "notch": [(20, []), (4, [])], "around": [(8, []), (4, [])], "parts-with-holes": [(12, [4]), (12, [4])],
}


def loops(m):
    """Boundary loops as cycles of nodes."""
    cnt = {}
    for kind, c in m.cells:
        for f in facets(kind, c):
            cnt.setdefault(frozenset(f), []).append(f)
    nb = {}
    for k, v in cnt.items():
        if len(v) == 1:
            a, b = v[0]
            nb.setdefault(a, []).append(b)
            nb.setdefault(b, []).append(a)
    assert all(len(v) == 2 for v in nb.values())
    out, seen = [], set()
    for s in sorted(nb):
        if s in seen:
            continue
        cyc = [s]
        seen.add(s)
        while True:
            nxt = [v for v in nb[cyc[-1]] if v not in seen]
            if not nxt:
                break
            cyc.append(nxt[0])
            seen.add(nxt[0])
        out.append(cyc)
    return out


def index(W, P, q):
    """The node at q (identical expressions), or None."""
    for i, p in enumerate(P):
        d = [a - b for a, b in zip(p, q)]
        if all((type(x).__name__ in ("float", "int", "float64", "float32", "Fraction") and abs(float(x)) < (1e-9 if W.sym else 1e-3)) for x in d):
            return i
    return None


def ring_of(W, P, poly, label):
    """Nodes of a closed polyline, in order along it."""
    lines = [int(v) for v in poly.lines]
    W.check(f"{label}: one closed line", len(lines) > 0 and lines[0] + 1 == len(lines) and lines[1] == lines[-1])
    if not lines or lines[0] + 1 != len(lines) or lines[1] != lines[-1]:
        return None
    W.check(f"{label}: no other points", poly.n_points == lines[0] - 1 and sorted(lines[1:-1]) == list(range(poly.n_points)))
    r = [index(W, P, list(poly.points[i])) for i in lines[1:-1]]
    W.check(f"{label}: nodes of the mesh", None not in r)
    return None if None in r else r


def same_loops(W, got, want, label):
    rest = [list(w) for w in want]
    for g in got:
        hit = [w for w in rest if same_cycle(g, w)]
        W.check(f"{label}: a loop of the boundary", len(hit) == 1)
        if hit:
            rest.remove(hit[0])
    W.check(f"{label}: every loop", not rest)


def boundary(W, mesh="one", axes=(0, 1), kind="unstructured"):
    np, pv, pvg = W.np, W.pv, W.pvg
    m = SURF[mesh]
    P = place(W, m, axes)
    if kind == "polydata":
        u = pv.PolyData(np.array(P), faces=[v for _, c in m.cells for v in (len(c), *c)])
    elif kind == "structured":
        d = [4, 3]
        d.insert(3 - sum(axes), 1)
        u = structured(W, np.array(P), tuple(d))
    else:
        u = m.build(W, np.array(P))
    fill = W.choice("fill", [None, False, True])
    n = (u.n_points, u.n_cells)
    r = pvg.extract_boundary_polygons(u, **({} if fill is None else {"fill": fill}))
    want = loops(m)
    W.check("number of polygons", r is not None and len(r) == len(want))
    if r is None:
        return
    got = []
    for e in r:
        if fill:
            faces = [int(v) for v in e.faces]
            W.check("one face", len(faces) > 0 and faces[0] + 1 == len(faces))
            f = [index(W, P, list(e.points[i])) for i in faces[1:]]
            W.check("face: nodes of the mesh", None not in f)
            if None not in f:
                got.append(f)
        else:
            got.append(ring_of(W, P, e, "line"))
    if None not in got:
        same_loops(W, got, want, "boundary")
    W.check("input kept", (u.n_points, u.n_cells) == n)


def holes(W, mesh="hole", axes=(0, 1)):
    np, pvg = W.np, W.pvg
    m = SURF[mesh]
    P = place(W, m, axes)
    # loops may come in any order: cells are listed from any of them
    k = W.choice("first", [0, len(m.cells) // 2, len(m.cells) - 1])
    mm = M(m.cells[k:] + m.cells[:k], m.ref, 2)
    u = mm.build(W, np.array(P))
    if W.flag("fill"):
        return filled(W, m, P, axes, pvg.extract_boundary_polygons(u, fill=True, with_holes=True), mesh)
    r = pvg.extract_boundary_polygons(u, with_holes=True)
    all_, sizes = [], []
    for poly in r:
        rs = [ring_of(W, P, e, "shell" if i == 0 else "hole") for i, e in enumerate(poly)]
        if None in rs:
            return
        all_ += rs
        sizes.append((len(rs[0]), sorted(len(x) for x in rs[1:])))
    same_loops(W, all_, loops(m), "boundary")
    W.check("holes belong to the polygon around them", sorted(sizes) == sorted(NEST[mesh]))
    if mesh == "parts-with-holes":
        for poly in r:
            a = [m.ref[index(W, P, list(p))][0] for p in poly[0].points]
            b = [m.ref[index(W, P, list(p))][0] for e in poly[1:] for p in e.points]
            W.check("hole lies within its polygon", min(a) < min(b) and max(b) < max(a))


def filled(W, m, P, axes, r, mesh):
    """Each polygon is meshed: it is bounded by its shell and its holes."""
    from .c34 import area, outline

    W.check("one mesh per polygon", r is not None and len(r) == len(NEST[mesh]))
    if r is None:
        return
    if W.sym:
        got, sizes = [], []
        for g in r:
            out = outline(g)
            used = sorted({v for e in out for v in e})
            idx = {v: index(W, P, list(g.points[v])) for v in used}
            W.check("nodes of the boundary", None not in idx.values())
            if None in idx.values():
                return
            nb = {}
            for a, b in out:
                nb.setdefault(idx[a], []).append(idx[b])
                nb.setdefault(idx[b], []).append(idx[a])
            W.check("closed boundaries", all(len(v) == 2 for v in nb.values()))
            if not all(len(v) == 2 for v in nb.values()):
                return
            mine, seen = [], set()
            for s in sorted(nb):
                cyc = []
                while s is not None and s not in seen:
                    seen.add(s)
                    cyc.append(s)
                    s = next((v for v in nb[s] if v not in seen), None)
                if cyc:
                    mine.append(cyc)
            got += mine
            n = sorted(len(c) for c in mine)
            sizes.append((n[-1], n[:-1]))
        same_loops(W, got, loops(m), "boundary")
        W.check("holes belong to the polygon around them", sorted(sizes) == sorted(NEST[mesh]))
        return
    cells = [[tuple(float(P[v][a]) for a in axes) for v in c] for _, c in m.cells]
    want = sum(abs(area(c)) for c in cells)
    got = sum(abs(sum(area([tuple(float(g.points[v][a]) for a in axes) for v in g.get_cell(i).point_ids]) for i in range(g.n_cells))) for g in r)
    W.check("area", abs(got - want) < 1e-3 * (1.0 + want))


def closed(W):
    """A closed surface has no boundary."""
    np, pv, pvg = W.np, W.pv, W.pvg
    h = MESHES["hexas"].ref[[0, 1, 4, 3, 6, 7, 10, 9]]
    s = [W.real(f"s{a}", 1 / 4, 4) for a in range(3)]
    P = [[s[a] * float(r[a]) for a in range(3)] for r in h]
    F = FACES["hexa"]
    drop = W.choice("open", [None, *range(6)])
    fs = [f for i, f in enumerate(F) if i != drop]
    u = pv.PolyData(np.array(P), faces=[v for f in fs for v in (4, *f)])
    r = pvg.extract_boundary_polygons(u)
    if drop is None:
        W.check("no boundary", r is None)
    else:
        W.check("one loop", r is not None and len(r) == 1)
        if r:
            g = ring_of(W, P, r[0], "line")
            if g is not None:
                W.check("the open face", same_cycle(g, F[drop]))


def lines(W, form="segments"):
    """Boundaries given as lines."""
    np, pv, pvg = W.np, W.pv, W.pvg
    m = SURF["two"]
    P = place(W, m, (0, 1))
    want = loops(m)
    keep = [v for w in want for v in w]
    Q = [P[v] for v in keep]
    flat = []
    o = 0
    for w in want:
        n = len(w)
        ids = [o + i for i in range(n)] + [o]
        if form == "segments":
            segs = list(zip(ids[:-1], ids[1:]))
            segs = [s[::-1] if i % 3 == 1 and W.flag("mixed") else s for i, s in enumerate(segs)]
            if W.flag("shuffled"):
                segs = segs[::2] + segs[1::2]
            flat += [v for s in segs for v in (2, *s)]
        else:
            flat += [len(ids), *ids]
        o += n
    u = pv.PolyData(np.array(Q), lines=np.array(flat))
    r = pvg.extract_boundary_polygons(u)
    W.check("number of lines", len(r) == len(want))
    got = [ring_of(W, P, e, "line") for e in r]
    if None not in got:
        same_loops(W, got, want, "boundary")


def instances(tier):
    q = tier == "quick"
    out = [Instance(f"boundary-{k}-{''.join(map(str, ax))}-{kd}", boundary, f"{k}, {kd}", mesh=k, axes=ax, kind=kd, replays=4) for k, ax, kd in
           [("one", (0, 1), "structured"), ("one", (1, 2), "polydata"), ("ell", (0, 2), "unstructured"), ("two", (0, 1), "unstructured"), ("hole", (2, 0), "unstructured"), ("mixed", (0, 1), "unstructured"), ("apart", (1, 2), "unstructured"), ("pixels", (0, 1), "unstructured"), ("island", (0, 1), "polydata")]]
    hs = [("hole", (0, 1)), ("hole", (0, 2)), ("two-holes", (1, 2)), ("island", (0, 1)), ("island", (2, 0)), ("parts-with-holes", (0, 1)), ("two", (1, 2)), ("one", (0, 2)), ("wide-hole", (1, 2)), ("holed-island", (0, 1)), ("notch", (0, 1)), ("notch", (2, 1)), ("around", (0, 1))]
    if not q:
        hs += [("holed-island", (1, 2)), ("parts-with-holes", (2, 1)), ("two-holes", (0, 2)), ("wide-hole", (1, 0))]
    out += [Instance(f"holes-{k}-{''.join(map(str, ax))}", holes, k, mesh=k, axes=ax, replays=3) for k, ax in hs]
    out += [Instance("closed", closed, "box with 5 or 6 faces"), Instance("lines-segments", lines, "segments in any order"), Instance("lines-polylines", lines, "polylines", form="polylines")]
    return out
