"""Names of the groups of cells."""
from .lib import *
from .meshes import MESHES

BOUNDS = "meshes of 3-5 cells (2D, 3D, structured, lines) with any group number per cell among 2-4 names listed in any order, including names that are not used, any numbers (negative included), another key, names missing or no group at all"


def build(W, kind):
    np, pv = W.np, W.pv
    if kind == "structured":
        s = W.real("s", 1 / 4, 4)
        return structured(W, np.array([[s * (i % 4), float(i // 4), 0.0] for i in range(8)]), (4, 2, 1))
    if kind == "polydata":
        s = W.real("s", 1 / 4, 4)
        return pv.PolyData(np.array([[s * i, float(j), 0.0] for j in range(2) for i in range(4)]), faces=[v for i in range(3) for v in (4, i, i + 1, i + 5, i + 4)])
    m = MESHES[kind]
    P, _ = m.points(W)
    return m.build(W, P)


def names(W, kind="mixed-2d", free=2):
    np, pvg = W.np, W.pvg
    m = build(W, kind)
    n = m.n_cells
    num = W.choice("numbers", [(0, 1, 2), (2, 0, 5), (-1, 7, 3)])
    order = W.choice("order", [(0, 1, 2), (2, 0, 1)])
    labels = {0: "A", 1: "BB", 2: "longer name"}
    key = W.choice("key", ["CellGroup", "Other"])
    which = [W.choice(f"g{i}", [0, 1, 2]) if i < free else 1 for i in range(n)]
    m.cell_data[key] = np.array([num[w] for w in which])
    m.user_dict[key] = {labels[o]: num[o] for o in order}
    if key == "Other" and W.flag("both"):
        m.cell_data["CellGroup"] = np.zeros(n, dtype=int)
        m.user_dict["CellGroup"] = {"X": 0}
    g = pvg.get_cell_group(m) if key == "CellGroup" and W.flag("default") else pvg.get_cell_group(m, key)
    W.check("one name per cell", len(g) == n)
    W.check("names", [str(x) for x in g] == [labels[w] for w in which])
    W.check("data kept", [int(W.val(x)) for x in m.cell_data[key]] == [num[w] for w in which] and dict(m.user_dict[key]) == {labels[o]: num[o] for o in order})
    if "X" in m.user_dict.get("CellGroup", {}):
        W.check("names of the other array", [str(x) for x in pvg.get_cell_group(m)] == ["X"] * n)


def numbers(W, kind="mixed-2d"):
    """Without names: the numbers; without the array: nothing."""
    np, pvg = W.np, W.pvg
    m = build(W, kind)
    n = m.n_cells
    case = W.choice("case", ["no-names", "other-names", "key-without-names", "no-array", "names-only"])
    v = W.arr("v", n, -9, 9, kind="i")
    if case in ("no-names", "other-names"):
        m.cell_data["CellGroup"] = v.copy()
    if case == "other-names":
        m.user_dict["Other"] = {"A": 0}
    if case == "names-only":
        m.user_dict["CellGroup"] = {"A": 0}
        m.point_data["CellGroup"] = np.zeros(m.n_points)
    if case == "key-without-names":
        m.cell_data["Other"] = v.copy()
        m.cell_data["CellGroup"] = np.zeros(n, dtype=int)
        m.user_dict["CellGroup"] = {"A": 0}
    g = pvg.get_cell_group(m, "Other") if case == "key-without-names" else pvg.get_cell_group(m)
    if case in ("no-array", "names-only"):
        W.check("nothing", g is None)
    else:
        W.eq("numbers", g, v)


def instances(tier):
    kinds = ["mixed-2d", "structured", "hexas", "polydata"] + ([] if tier == "quick" else ["lines", "polyhedra", "empty-3d", "empty-2d"])
    free = 2 if tier == "quick" else 3
    return [Instance(f"names-{k}", names, "3 names", kind=k, free=free, replays=8) for k in kinds] + [Instance(f"numbers-{k}", numbers, "no names", kind=k, replays=8) for k in kinds]
