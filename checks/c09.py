"""Group assignment of stacks, extrusions and merges: names, masks, inversion, ignored and default groups."""
from .lib import *

BOUNDS = "bases of 3 cells with symbolic group numbers among 2 labelled groups and one unlabelled number, 2 items; masks of symbolic booleans, symbolic indices, functions, group names and lists of names, each possibly inverted; collapsed cells; many indices at once"

LAB = {"a": 0, "ab": 1}


def base(W, kind, with_groups):
    np, pv = W.np, W.pv
    if kind == "unstructured":
        P = np.array([[0.0, 0.0, 0.0], [1.0, 0.0, 0.0], [2.0, 0.0, 0.0], [0.0, 1.0, 0.0], [1.0, 1.0, 0.0], [2.0, 1.0, 0.0]])
        m = pv.UnstructuredGrid(np.array([4, 0, 1, 4, 3, 3, 1, 2, 4, 3, 2, 5, 4]), np.array([9, 5, 5]), P)
    else:
        P = np.array([[float(i), float(j), 0.0] for j in range(2) for i in range(4)])
        m = structured(W, P, (4, 2, 1))
    g = None
    if with_groups:
        g = W.arr("g", 3, 0, 2, kind="i")
        m.cell_data["CellGroup"] = g.copy()
        m.user_dict["CellGroup"] = dict(LAB)
    return m, g


def start(W, g, ignore):
    """Name of each cell before the item's own groups: {name: condition}."""
    out = []
    for c in range(3):
        d = {}
        if g is not None:
            for k, v in LAB.items():
                if k not in ignore:
                    d[k] = g[c] == v
        out.append(d)
    return out


def override(W, names, key, mask):
    if key.startswith("~"):
        key, mask = key[1:], [W.not_(x) for x in mask]
    for c in range(3):
        d = names[c]
        for k in list(d):
            d[k] = W.and_(d[k], W.not_(mask[c]))
        d[key] = W.or_(d.get(key, False), mask[c])


def group_arg(W, form, g, tag):
    """(argument, [(key, mask)]) for one item."""
    np = W.np
    if form == "none":
        return None, []
    if form == "name":
        return "n" + tag, [("n" + tag, [True] * 3)]
    if form == "existing":
        return "ab", [("ab", [True] * 3)]
    b = [W.bool(f"m{tag}{c}") for c in range(3)]
    if form == "mask":
        return {"x": np.array(b)}, [("x", b)]
    if form == "inverted mask":
        return {"~x": np.array(b)}, [("~x", b)]
    if form == "function":
        return {"x": lambda m: np.array(b)}, [("x", b)]
    if form == "indices":
        i = W.int(f"i{tag}", 0, 2)
        return {"x": [i]}, [("x", [i == c for c in range(3)])]
    if form == "many indices":
        i = [W.int(f"i{tag}0", -3, 2), W.int(f"i{tag}1", 0, 2), -1]
        return {"x": np.array(i)}, [("x", [W.or_(*[W.or_(v == c, v == c - 3) for v in i]) for c in range(3)])]
    if form == "inverted indices":
        i, j = W.int(f"i{tag}", 0, 2), W.int(f"j{tag}", 0, 2)
        return {"~a": (i, j)}, [("~a", [W.or_(i == c, j == c) for c in range(3)])]
    if form == "order":
        i = W.int(f"i{tag}", 0, 2)
        return {"x": np.array(b), "y": [i], "a": np.array([True, False, False])}, [("x", b), ("y", [i == c for c in range(3)]), ("a", [True, False, False])]
    ga = [g[c] == 0 for c in range(3)]
    gb = [g[c] == 1 for c in range(3)]
    if form == "group":
        return {"x": "a"}, [("x", ga)]
    if form == "not group":
        return {"x": "~a"}, [("x", [W.not_(v) for v in ga])]
    if form == "not last group":
        return {"x": W.choice("as" + tag, ["~ab", ["~ab"]])}, [("x", [W.not_(v) for v in gb])]
    if form == "inverted group":
        return {"~x": "ab"}, [("~x", gb)]
    if form == "groups":
        return {"x": ["a", "ab"]}, [("x", [W.or_(p, q) for p, q in zip(ga, gb)])]
    if form == "array of groups":
        return {"x": np.array(["ab", "a"])}, [("x", [W.or_(p, q) for p, q in zip(ga, gb)])]
    if form == "mixed groups":
        return {"x": ("ab", "~a")}, [("x", [W.or_(q, W.not_(p)) for p, q in zip(ga, gb)])]
    if form == "not groups":
        return {"x": ["~a", "~ab"]}, [("x", [W.or_(W.not_(p), W.not_(q)) for p, q in zip(ga, gb)])]
    if form == "group and not group":
        return {"x": ["a", "~ab"], "y": ["ab", "~ab"]}, [("x", [W.or_(p, W.not_(q)) for p, q in zip(ga, gb)]), ("y", [True] * 3)]
    raise ValueError(form)


PLAIN = ["none", "name", "existing", "mask", "inverted mask", "function", "indices", "many indices", "inverted indices", "order"]
NAMED = ["group", "not group", "not last group", "inverted group", "groups", "mixed groups", "array of groups", "not groups", "group and not group"]


def verify(W, m, want, default):
    """want: per cell {name: condition}; cells matching none take the default group."""
    lab = dict(m.user_dict["CellGroup"])
    out = m.cell_data["CellGroup"]
    W.check("labels are distinct numbers", len(set(lab.values())) == len(lab))
    W.check("cells", len(out) == len(want))
    for c, d in enumerate(want):
        d = dict(d)
        rest = W.not_(W.or_(False, *d.values()))
        d[default] = W.or_(d.get(default, False), rest)
        for k, cond in d.items():
            if k in lab:
                W.check(f"cell in group {k}", W.implies(cond, out[c] == lab[k]))
            else:
                W.check(f"group {k} is labelled", W.not_(cond))
    for k, v in lab.items():
        W.check("labels are used", W.or_(*[x == v for x in out]))


def run(W, via="stack", kind="unstructured", forms=("none",), grouped=True, second="name"):
    np, pvg = W.np, W.pvg
    b, g = base(W, kind, grouped)
    form = W.choice("form", list(forms))
    ig = W.choice("ignore", [None, ["a"]]) if grouped else None
    default = W.choice("default", [None, "dft"])
    a1, o1 = group_arg(W, form, g, "0")
    a2, o2 = group_arg(W, second, g, "1")
    d = W.real("d", 0.5, 3.0)
    kw = dict(default_group=default, ignore_groups=ig)
    if via == "stack":
        m = pvg.MeshStack3D(b, **kw).add(0.0).add(d, group=a1).add(d, group=a2).generate_mesh()
        key = "StackItem"
    else:
        v = [0.0, 0.0, d]
        m = pvg.MeshExtrude(b, **kw).add(v, group=a1).add(v, group=a2).generate_mesh()
        key = "ExtrudeItem"
    per = []
    for o in (o1, o2):
        n = start(W, g, ig or [])
        for k, mask in o:
            override(W, n, k, mask)
        per.append(n)
    items, cols = W.val(m.cell_data[key]), W.val(m.cell_data["ColumnId"])
    W.check("cells", m.n_cells == 6)
    verify(W, m, [per[int(i)][int(c)] for i, c in zip(items, cols)], default or "default")


def line(W, forms=PLAIN):
    np, pvg = W.np, W.pvg
    form = W.choice("form", list(forms))
    default = W.choice("default", [None, "dft"])
    a1, o1 = group_arg(W, form, None, "0")
    d = W.real("d", 0.5, 3.0)
    axis = W.choice("axis", [0, 2])
    m = pvg.MeshStack2D([0.0, 1.0, 2.0, 3.0], axis, default_group=default).add(0.0).add(d, group=a1).add(d).generate_mesh()
    n = start(W, None, [])
    for k, mask in o1:
        override(W, n, k, mask)
    per = [n, [{} for _ in range(3)]]
    items, cols = W.val(m.cell_data["StackItem"]), W.val(m.cell_data["ColumnId"])
    verify(W, m, [per[int(i)][int(c)] for i, c in zip(items, cols)], default or "default")


def collapsed(W, kind="unstructured", via="stack"):
    """Groups of hidden cells keep their labels."""
    np, pvg = W.np, W.pvg
    b, g = base(W, kind, True)
    d = W.real("d", 0.5, 3.0)
    names = ["u", "flat", "v"]
    flat = W.choice("flat", [0, 1, 2])
    names[flat], names[1] = "flat", names[flat] if flat != 1 else "flat"
    h = [0.0 if i == flat else d for i in range(3)]
    if via == "stack":
        s = pvg.MeshStack3D(b).add(0.0)
        for i in range(3):
            s.add(h[i], group=names[i])
        key = "StackItem"
    else:
        s = pvg.MeshExtrude(b)
        for i in range(3):
            s.add([0.0, 0.0, h[i]], group=names[i])
        key = "ExtrudeItem"
    m = s.generate_mesh()
    W.check("cells", m.n_cells == 9)
    for c, i in enumerate(W.val(m.cell_data[key])):
        W.check("hidden", (m.cell_data["vtkGhostType"][c] > 0) == (int(i) == flat))
    verify(W, m, [{names[int(i)]: True} for i in W.val(m.cell_data[key])], "default")


def refused(W):
    np, pvg = W.np, W.pvg
    b, g = base(W, "unstructured", False)
    x = W.real("x", 0.0, 1.0)
    s = pvg.MeshStack3D(b).add(0.0).add(1.0, group={"x": [x, x, x]})
    W.check("masks of numbers are refused", W.raises(ValueError, s.generate_mesh))


def instances(tier):
    q = tier == "quick"
    out = []
    for via in ("stack", "extrude"):
        for kind in ("unstructured", "structured"):
            if q and (via, kind) == ("extrude", "unstructured"):
                continue
            for f in PLAIN + NAMED:
                if q and kind == "structured" and f not in ("name", "inverted mask", "order", "not group", "mixed groups"):
                    continue
                if q and via == "extrude" and f not in ("inverted mask", "mixed groups"):
                    continue
                out.append(Instance(f"{via}-{kind}-{f.replace(' ', '-')}", run, "grouped base", via=via, kind=kind, forms=(f,), replays=4, second="name" if f != "none" else "mask"))
        out.append(Instance(f"{via}-ungrouped", run, "base without groups", via=via, forms=PLAIN, grouped=False, replays=12))
    out.append(Instance("line", line, "3 line cells", replays=12))
    for via, kind in (("stack", "unstructured"), ("stack", "structured"), ("extrude", "structured")):
        out.append(Instance(f"{via}-{kind}-collapsed", collapsed, "3 items, one without thickness", via=via, kind=kind))
    out.append(Instance("refused", refused, "invalid masks"))
    return out
