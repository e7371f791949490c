"""Splitting and merging of lines."""
from symx.sympv import near_merging

from .lib import *

BOUNDS = "polygonal data with up to 3 lines/polylines of 2-4 nodes (sharing nodes or not, unused nodes, a face among them), all coordinates symbolic, scalar/vector point and cell data; merging of 2-3 meshes with common and private data; text data; nodes 2e-6 apart, which stay distinct"

CASES = {
    "polyline": [[0, 1, 2, 3]],
    "segments": [[0, 1], [1, 2], [3, 2]],
    "mixed": [[4, 2, 0], [1, 3], [3, 4, 1, 0]],
    "disjoint": [[0, 1], [2, 3, 4]],
    "loop": [[0, 1, 2, 0], [3, 4]],
}


def mk(W, lines, tag="", face=False, n=5, lo=-8, gap=0.25):
    np, pv = W.np, W.pv
    # distinct nodes: apart by at least `gap` in x
    P = W.arr("P" + tag, (n, 3), -8, 8)
    X = W.arr("X" + tag, n, gap, 2.0)
    x, xs = float(lo), []
    for i in range(n):
        x = x + X[i]
        xs.append(x)
    P = np.array([[xs[i], P[i][1], P[i][2]] for i in range(n)])
    kw = dict(faces=[3, 0, 1, 2]) if face else {}
    m = pv.PolyData(P, lines=[v for c in lines for v in (len(c), *c)], **kw)
    pd = W.arr("pd" + tag, n, -5, 5)
    nc = len(lines) + (1 if face else 0)
    cd, cv = W.arr("cd" + tag, nc, 0, 99, kind="i"), W.arr("cv" + tag, (nc, 3), -5, 5)
    m.point_data["pd"] = pd.copy()
    m.cell_data["name"] = np.array([f"{tag}name{i}" + "x" * i for i in range(nc)])
    m.cell_data["cd"], m.cell_data["cv"] = cd.copy(), cv.copy()
    return m, P, pd, cd, cv


def split(W, case="mixed", face=False):
    np, pvg = W.np, W.pvg
    lines = CASES[case]
    as_lines = W.flag("as_lines")
    m, P, pd, cd, cv = mk(W, lines, face=face)
    out = pvg.split_lines(m, as_lines=as_lines)
    W.check("one mesh per line", len(out) == len(lines))
    for i, (l, ids) in enumerate(zip(out, lines)):
        n = len(ids)
        W.eq("nodes in order", l.points, np.array([list(P[j]) for j in ids]))
        want = [v for j in range(n - 1) for v in (2, j, j + 1)] if as_lines else [n, *range(n)]
        W.check("connectivity", [int(v) for v in l.lines] == want)
        k = n - 1 if as_lines else 1
        W.eq("point data", l.point_data["pd"], np.array([pd[j] for j in ids]))
        W.eq("cell data", l.cell_data["cd"], np.array([cd[i]] * k))
        W.check("text of each line", [str(v) for v in l.cell_data["name"]] == [f"name{i}" + "x" * i] * k)
        W.eq("vector cell data", l.cell_data["cv"], np.array([list(cv[i])] * k))


def merge(W, cases=("mixed", "segments"), gap=0.25):
    if gap < 0.25:
        near_merging(W)
    np, pvg = W.np, W.pvg
    as_lines = W.flag("as_lines")
    ms, segs = [], []
    for q, case in enumerate(cases):
        m, P, pd, cd, cv = mk(W, CASES[case], f"{q}", lo=-8.0 + 20.0 * q, gap=gap)
        if q == 0 or (q == 2 and len(cases) > 2):
            m.cell_data["private"] = cd.copy()
            m.point_data["own"] = pd.copy()
        ms.append(m)
        for i, ids in enumerate(CASES[case]):
            parts = [[a, b] for a, b in zip(ids[:-1], ids[1:])] if as_lines else [ids]
            segs += [([list(P[j]) for j in p], [pd[j] for j in p], cd[i], list(cv[i]), f"{q}name{i}" + "x" * i) for p in parts]
    r = pvg.merge_lines(ms, as_lines=as_lines)
    W.check("cells", r.n_cells == len(segs) and r.n_lines == len(segs))
    used = sum(len({j for ids in CASES[c] for j in ids}) for c in cases)
    W.check("coincident nodes are merged", r.n_points == used)
    W.check("only common data", "private" not in r.cell_data and {"cd", "cv"} <= set(r.cell_data.keys()) and "own" not in r.point_data and "pd" in r.point_data)
    conn, k = [int(v) for v in r.lines], 0
    for c, (pts, pd, cd, cv, name) in enumerate(segs):
        n = conn[k]
        ids = conn[k + 1 : k + 1 + n]
        k += n + 1
        W.check("size", n == len(pts))
        W.eq("line in place", np.array([list(r.points[j]) for j in ids]), np.array(pts))
        W.eq("point data", np.array([r.point_data["pd"][j] for j in ids]), np.array(pd))
        W.eq("cell data", np.ravel(r.cell_data["cd"][c]), np.array([cd]))
        W.check("text of each line", str(r.cell_data["name"][c]) == name)
        W.eq("vector cell data", r.cell_data["cv"][c], np.array(cv))


def instances(tier):
    q = tier == "quick"
    out = [Instance(f"split-{c}", split, "<= 3 lines", case=c) for c in CASES]
    out.append(Instance("split-with-face", split, "lines and a face", case="disjoint", face=True))
    for cs in [("mixed", "segments"), ("disjoint", "polyline"), ("loop", "disjoint"), ("polyline", "segments", "disjoint")] + ([] if q else [("mixed", "segments", "polyline")]):
        out.append(Instance("merge-close-" + "-".join(cs), merge, f"{len(cs)} meshes", cases=cs, gap=2e-6))
        out.append(Instance("merge-" + "-".join(cs), merge, f"{len(cs)} meshes", cases=cs))
    return out
