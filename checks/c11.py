"""Remapping categorical data keeps the meaning of every value; group names follow the numbers."""
from .lib import *

BOUNDS = "3-4 cells (or points) with symbolic integer values 0-3, three labels and one unlabelled value; name and number keys, swaps, shifts, partial mappings, symbolic distinct targets; in place and copied; cell and point data"

LAB = {"a": 0, "b": 1, "c": 2}


def mesh(W, n, pref):
    np, pv = W.np, W.pv
    P = np.array([[float(i % 3), float(i // 3), 0.0] for i in range(6)])
    m = pv.UnstructuredGrid(np.array([4, 0, 1, 4, 3, 3, 1, 2, 4, 3, 2, 5, 4]), np.array([9, 5, 5]), P)
    k = 3 if pref == "cell" else 6
    v = W.arr("v", n, 0, 3, kind="i")
    v = np.array([v[i % n] for i in range(k)])
    (m.cell_data if pref == "cell" else m.point_data)["k"] = v.copy()
    return m, v


MAPS = {
    "swap": {"a": 1, "b": 0},
    "numbers": {0: 7, 3: 9},
    "shift": {"a": 1, "b": 2, "c": 5},
    "rotate": {"c": 0, "a": 1, "b": 2},
    "mixed": {"c": 4, 3: 2},
    "mixed-swap": {"a": 1, 1: 0},
    "mixed-chain": {"b": 2, 2: 6},
    "empty": {},
    "negative": {"b": -1, 0: 11},
}


def remap(W, pref="cell", labelled=True, which=None, inplace=False, lab=None):
    np, pvg = W.np, W.pvg
    LAB = lab or {"a": 0, "b": 1, "c": 2}
    m, v = mesh(W, 3, pref)
    if labelled:
        m.user_dict["k"] = dict(LAB)
    if which is None:
        # symbolic targets, all different and away from the values left alone
        t = [W.int("ta", -5, 9), W.int("tb", -5, 9)]
        W.assume(W.and_(t[0] != t[1], *[x != y for x in t for y in (2, 3)]))
        if labelled:
            t = [int(W.val(x)) for x in t]
        mapping = {"a" if labelled else 0: t[0], 1: t[1]}
    else:
        mapping = {k: x for k, x in MAPS[which].items() if labelled or not isinstance(k, str)}
    new = {i: i for i in range(4)}
    for k, x in mapping.items():
        new[LAB[k] if isinstance(k, str) else k] = x
    r = pvg.remap_categorical_data(m, "k", mapping, preference=pref, inplace=inplace)
    if inplace:
        W.check("nothing returned", r is None)
        r = m
    else:
        src = (m.cell_data if pref == "cell" else m.point_data)["k"]
        W.eq("input kept", src, v)
        if labelled:
            W.check("labels of the input kept", dict(m.user_dict["k"]) == LAB)
    out = (r.cell_data if pref == "cell" else r.point_data)["k"]
    for i in range(len(v)):
        for old, nw in new.items():
            W.check("value", W.implies(v[i] == old, out[i] == nw))
    if labelled:
        lab = dict(r.user_dict["k"])
        W.check("labels are distinct numbers", len(set(lab.values())) == len(lab))
        for k, x in LAB.items():
            used = W.or_(*[y == x for y in v])
            if k in lab:
                W.check("label follows its value", lab[k] == new[x])
                W.check("label in use", used)
            else:
                W.check("label dropped only when unused", W.not_(used))
        W.check("no other label", set(lab) <= set(LAB))


def names(W, labelled=True):
    """get_cell_group returns the name of each cell."""
    np, pvg = W.np, W.pvg
    m, v = mesh(W, 3, "cell")
    W.assume(W.and_(*[x <= 2 for x in v]))
    W.check("no group", pvg.get_cell_group(m) is None)
    if labelled:
        lab = W.choice("labels", [LAB, {"a": 2, "b": 0, "c": 1}, {"left": 1, "b": 2, "c": 0, "d": 7}, {"b": 2, "a": 1, "c": 0}])
        m.user_dict["k"] = dict(lab)
        got = pvg.get_cell_group(m, "k")
        inv = {x: k for k, x in lab.items()}
        for c in range(3):
            W.check("name", str(got[c]) == inv[int(W.val(v[c]))])
    else:
        W.eq("number", pvg.get_cell_group(m, "k"), v)


def refused(W):
    np, pvg = W.np, W.pvg
    m, v = mesh(W, 3, "cell")
    m.cell_data["f"] = W.arr("f", 3, 0, 1)
    m.cell_data["o"] = np.array([True, False, True])
    m.cell_data["t"] = np.array(["a", "b", "a"])
    m.user_dict["k"] = dict(LAB)
    case = W.choice("case", ["name", "float", "bool", "text", "preference"])
    f = {
        "name": lambda: pvg.remap_categorical_data(m, "k", {"zz": 1}),
        "float": lambda: pvg.remap_categorical_data(m, "f", {0: 1}),
        "bool": lambda: pvg.remap_categorical_data(m, "o", {0: 1}),
        "text": lambda: pvg.remap_categorical_data(m, "t", {0: 1}),
        "preference": lambda: pvg.remap_categorical_data(m, "k", {0: 1}, preference="field"),
    }[case]
    W.check("refused", W.raises(ValueError, f))


def instances(tier):
    q = tier == "quick"
    out = []
    for pref in ("cell", "point"):
        for w in MAPS:
            for ip in (False, True):
                if q and pref == "point" and w not in ("swap", "mixed"):
                    continue
                if q and ip != (w in ("swap", "numbers", "negative")):
                    continue
                out.append(Instance(f"{pref}-{w}{'-inplace' if ip else ''}", remap, "3 values", pref=pref, which=w, inplace=ip, replays=6))
        out.append(Instance(f"{pref}-unlabelled", remap, "no labels", pref=pref, labelled=False, which="numbers", replays=6))
    for w in ("rotate", "numbers", "empty"):
        out.append(Instance(f"cell-{w}-shuffled", remap, "3 values, labels in any order", which=w, lab={"a": 2, "b": 0, "c": 1}, replays=6))
    out.append(Instance("symbolic-targets", remap, "two symbolic targets", which=None, replays=10, max_paths=20000, **({"pref": "cell"})) if not q else Instance("symbolic-targets", remap, "two symbolic targets, unlabelled", which=None, labelled=False, replays=10))
    out += [Instance("names", names, "3 cells"), Instance("numbers", names, "3 cells", labelled=False), Instance("refused", refused, "invalid arguments")]
    return out
