"""Merging meshes: every cell of every item, in place, with its data and the right group."""
from .lib import *

BOUNDS = "2-3 items of 1-2 cells (structured, unstructured, polygonal data), symbolic stretch and gap (zero gap: shared nodes), symbolic group numbers among 2 labels and one unlabelled number, named and unnamed items, ignored groups"


def item(W, tag, kind, x0, w, groups):
    """Two cells [x0, x0 + w, x0 + 2w] x [0, 1]; returns mesh, cells as coordinates, symbolic groups."""
    np, pv = W.np, W.pv
    X = [x0, x0 + w, x0 + 2.0 * w]
    P = np.array([[x, y, 0.0] for y in (0.0, 1.0) for x in X])
    quads = [[0, 1, 4, 3], [1, 2, 5, 4]]
    if kind == "structured":
        m = structured(W, P, (3, 2, 1))
    elif kind == "polydata":
        m = pv.PolyData(P, faces=[4, *quads[0], 4, *quads[1]])
    else:
        m = pv.UnstructuredGrid(np.array([4, *quads[0], 3, 1, 2, 5]), np.array([9, 5]), P)
        quads = [quads[0], [1, 2, 5]]
    g = None
    m.cell_data["tag"] = np.array([10 * tag, 10 * tag + 1])
    v = W.arr(f"v{tag}", 2, -5, 5)
    m.cell_data["v"] = v.copy()
    if groups:
        g = W.arr(f"g{tag}", 2, 0, 2, kind="i")
        m.cell_data["CellGroup"] = g.copy()
        m.user_dict["CellGroup"] = groups
    return m, [[list(P[i]) for i in q] for q in quads], g, v


def merge(W, kinds=("unstructured", "structured"), labels=(("a", "b"), ("b", "c")), ignore=(None, ["b"]), named=(0, 1), defaults=(None, "dft")):
    np, pvg = W.np, W.pvg
    touch = W.flag("touch")
    gap = 0.0 if touch else W.real("gap", 0.5, 3.0)
    x = W.real("x", -5, 5)
    ig = W.choice("ignore", list(ignore))
    default = W.choice("default", list(defaults))
    mm = pvg.MeshMerge(default_group=default, ignore_groups=ig)
    info = {}
    n = len(kinds)
    for i, (kind, lab) in enumerate(zip(kinds, labels)):
        w = 1.0 + i
        lab_ = {k: j for j, k in enumerate(lab)} if lab else None
        m, cells, g, v = item(W, i, kind, x, w, lab_)
        name = W.choice(f"name{i}", [None, f"item{i}"]) if i in named else None
        mm.add(m, name)
        for c in range(2):
            want = {}
            if lab_:
                for k, j in lab_.items():
                    if k not in (ig or []):
                        want[k] = g[c] == j
            info[10 * i + c] = (cells[c], want, name or default or "default", v[c])
        x = x + 2.0 * w + gap
    m = mm.generate_mesh()
    W.check("all cells", m.n_cells == 2 * n)
    W.check("nodes", m.n_points == 6 * n - (2 * (n - 1) if touch else 0))
    tags = [int(t) for t in W.val(m.cell_data["tag"])]
    W.check("each cell once", sorted(tags) == sorted(info))
    lab = dict(m.user_dict["CellGroup"])
    W.check("labels are distinct numbers", len(set(lab.values())) == len(lab))
    conn = pvg.get_cell_connectivity(m)
    out = m.cell_data["CellGroup"]
    for c, t in enumerate(tags):
        pts, want, rest, v = info[t]
        W.eq("cell data", m.cell_data["v"][c], v)
        W.eq("cell in place", np.array([m.points[int(i)] for i in conn[c]]), np.array(pts))
        want = dict(want)
        want[rest] = W.or_(want.get(rest, False), W.not_(W.or_(False, *want.values())))
        for k, cond in want.items():
            if k in lab:
                W.check("group", W.implies(cond, out[c] == lab[k]))
            else:
                W.check("group is labelled", W.not_(cond))
    for k, v in lab.items():
        W.check("labels are used", W.or_(*[o == v for o in out]))


def single(W):
    np, pvg = W.np, W.pvg
    m, cells, g, v = item(W, 0, W.choice("kind", ["unstructured", "structured", "polydata"]), W.real("x", -5, 5), 1.5, {"a": 0, "b": 1})
    r = pvg.MeshMerge().add(m, "rest").generate_mesh()
    lab = dict(r.user_dict["CellGroup"])
    W.check("cells", r.n_cells == 2)
    for c in range(2):
        for k, cond in (("a", g[c] == 0), ("b", g[c] == 1), ("rest", g[c] == 2)):
            W.check("group", W.implies(cond, r.cell_data["CellGroup"][c] == lab[k] if k in lab else False))
    W.check("nothing to merge is refused", W.raises(ValueError, pvg.MeshMerge().generate_mesh))


def instances(tier):
    q = tier == "quick"
    A = ("a", "b")
    two = dict(kinds=("unstructured", "structured"), labels=(A, ("b", "bc")), replays=6)
    out = [
        Instance("keep", merge, "2 items with shared label", ignore=(None,), named=(1,), defaults=("dft",), **two),
        Instance("ignore", merge, "2 items with shared label, ignored", ignore=(["b"],), named=(0,), defaults=(None,), **two),
        Instance("structured-unlabelled", merge, "second item without groups", kinds=("structured", "unstructured"), labels=(A, None), replays=10, ignore=(None,)),
        Instance("polydata-first", merge, "polygonal data", kinds=("polydata", "unstructured"), labels=(None, ("b", "a")), replays=10, ignore=(["b"],)),
        Instance("three", merge, "3 items", kinds=("unstructured", "polydata", "structured"), labels=(None, ("a",), None), replays=10, ignore=(None,), named=(0, 1)),
        Instance("single", single, "1 item"),
    ]
    if not q:
        out.append(Instance("all-options", merge, "2 items with shared label", kinds=("unstructured", "structured"), labels=(A, ("b", "bc"))))
        out.append(Instance("three-labelled", merge, "3 labelled items", kinds=("unstructured", "structured", "unstructured"), labels=(A, ("c", "a"), ("b",)), replays=20, max_paths=40000))
    return out
