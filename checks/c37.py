"""Cells and points chosen on screen."""
import inspect

import pyvista as rpv

from .lib import *
from .meshes import *

BOUNDS = "histories of up to 4 picks (thorough: 5) among 3-4 cells or points, and lassos of 3-5 clicks of fixed shapes, convex or not, at symbolic places, in the six views, over meshes of 1-3 cells at symbolic places"
GAP = 1 / 64
VIEWS = {"xy": 2, "xz": 1, "yz": 0}


class Plotter:
    """Stand-in of a plotter: records what is drawn, and plays the events when it is shown."""

    def __init__(self, play):
        self.play = play
        self.calls, self.actors, self.shown, self.handlers = [], {}, 0, {}
        self.theme = type("Theme", (), {})()

    def __getattr__(self, name):
        real = getattr(rpv.Plotter, name)  # AttributeError like the real one

        def f(*a, **k):
            b = inspect.signature(real).bind(None, *a, **k)
            b.apply_defaults()
            args = b.arguments
            self.calls.append((name, args))
            if name == "add_mesh":
                t = f"actor {len(self.calls)}"
                self.actors[t] = args
                return t
            if name == "remove_actor":
                for t in args["actor"] if isinstance(args["actor"], (list, tuple)) else [args["actor"]]:
                    self.actors.pop(t, None)
            if name in ("enable_element_picking", "track_click_position"):
                self.handlers[name] = args
            if name == "show":
                self.shown += 1
                self.play(self)

        return f

    def named(self, name):
        return [a for n, a in self.calls if n == name]


def picks(W, n=3, cells=3, mode="cell", view=None):
    """Any history of picks."""
    np, pv, pvg = W.np, W.pv, W.pvg
    m = MESHES["pixels-2d"]
    o = W.real("o", -50, 50)
    mesh = m.build(W, np.array([[o + float(r[0]), float(r[1]), float(r[2])] for r in m.ref]))
    hist = [int(W.int(f"pick{i}", 0, cells - 1)) for i in range(n)]

    def play(p):
        h = p.handlers["enable_element_picking"]
        for i in hist:
            if mode == "cell":
                h["callback"](mesh.extract_cells([i]))
            else:
                q = pv.PolyData(np.array([mesh.points[i]]))
                q.point_data["vtkOriginalPointIds"] = np.array([i])
                h["callback"](q)

    p = Plotter(play)
    view = W.choice("view", [None, "xy", "-xz", "yz"]) if view is None else view
    flat = W.flag("parallel")
    r = pvg.interactive_selection(mesh, p, view=view, parallel_projection=flat, preference=mode, color="white")
    want = []
    for i in hist:
        want.remove(i) if i in want else want.append(i)
    W.check("those picked an odd number of times", sorted(int(v) for v in r) == sorted(want) and len(r) == len(want))
    drawn = [a["mesh"] for a in p.actors.values()]
    key = lambda d: (d.cell_data["vtkOriginalCellIds"] if mode == "cell" else d.point_data["vtkOriginalPointIds"])[0]
    W.check("highlights are the selection", sum(d is mesh for d in drawn) == 1 and sorted(int(key(d)) for d in drawn if d is not mesh) == sorted(want))
    h = p.handlers["enable_element_picking"]
    W.check("mode and picker", h["mode"] == mode and h["picker"] == mode and not h["show_message"])
    options = p.named("add_mesh")[0]
    W.check("mesh is pickable and the options pass", options["pickable"] and options["show_edges"] and options["color"] == "white")
    views = [(c, a) for c, a in p.calls if c.startswith("view_")]
    if view is None:
        W.check("no view", not views)
    else:
        W.check("view", len(views) == 1 and views[0][0] == "view_" + view[-2:] and bool(views[0][1]["negative"]) == (view[0] == "-"))
    W.check("projection", len(p.named("enable_parallel_projection")) == int(flat) and p.shown == 1)


# shapes of lassos, clicked around either way
SHAPES = {
    "triangle": [(0, 0), (1.5, 0.25), (0.25, 1)],
    "quad": [(0, 0), (0, 1.25), (1.5, 1.5), (1.25, -0.25)],
    "pentagon": [(0, 0), (1, -0.5), (1.75, 0.5), (1, 1.5), (-0.25, 1)],
}
# not convex: within one or the other of these triangles
PARTS = {"dart": ((0, 1, 2), (0, 2, 3))}
SHAPES["dart"] = [(0, 0), (2, -0.25), (0.75, 0.75), (0.5, 2)]
SMALL = M([("tetra", (0, 1, 2, 3))], [(0, 0, 0), (1, 0, 0.25), (0.25, 1, 0.5), (0.5, 0.25, 1)], 3)


def lasso(W, mesh="hexas", mode="cell", shape="quad", views=("xy", "-xy", "xz", "-xz", "yz", "-yz")):
    np, pv, pvg = W.np, W.pv, W.pvg
    m = SMALL if mesh == "small" else MESHES[mesh]
    o = W.arr("o", 3, -50, 50)
    P = np.array([[o[k] + float(r[k]) for k in range(3)] for r in m.ref])
    grid = m.build(W, P)
    view = W.choice("view", list(views))
    ax = VIEWS[view[-2:]]
    u, v = [k for k in range(3) if k != ax]
    at = [W.real("x", -1, 1.5), W.real("y", -1, 1.5)]
    depth = W.real("depth", -9, 9)
    ring = [(at[0] + x, at[1] + y) for x, y in SHAPES[shape]]
    parts = [[ring[i] for i in t] for t in PARTS.get(shape, [range(len(ring))])]
    if W.flag("other way"):
        ring = ring[::-1]
    clicks = []
    for x, y in ring:
        q = [None] * 3
        q[ax], q[u], q[v] = depth, o[u] + x, o[v] + y
        clicks.append(q)
    if mode == "cell":
        # what centres are is C21's matter
        C = [[q[k] - o[k] for k in range(3)] for q in pvg.get_cell_centers(grid)]
    else:
        C = [[float(x) for x in r] for r in m.ref]
    want = []
    for c in C:
        within = []
        for part in parts:
            turn = [(b[0] - a[0]) * (c[v] - a[1]) - (b[1] - a[1]) * (c[u] - a[0]) for a, b in zip(part, part[1:] + part[:1])]
            inside = W.or_(W.and_(*[t >= GAP for t in turn]), W.and_(*[t <= -GAP for t in turn]))
            W.assume(W.or_(inside, W.and_(W.or_(*[t >= GAP for t in turn]), W.or_(*[t <= -GAP for t in turn]))))
            within.append(inside)
        want.append(W.or_(*within))

    def play(p):
        for q in clicks:
            p.handlers["track_click_position"]["callback"](tuple(q) if not W.sym else q)

    p = Plotter(play)
    back = W.flag("polygon")
    r = pvg.interactive_lasso_selection(grid, p, view=view, preference=mode, **(dict(return_polygon=True) if back else {}))
    W.check("polygon on request", isinstance(r, tuple) == back)
    ind = r[0] if back else r
    got = [int(i) for i in ind]
    W.check("ids in order", got == sorted(set(got)) and all(0 <= i < len(C) for i in got))
    for i, inside in enumerate(want):
        W.check(f"{i} chosen when inside the lasso", W.iff(inside, i in got))
    if back:
        Q = r[1].ring if W.sym else rnp.array(r[1].exterior.coords)[:-1]
        W.eq("polygon of the clicks", Q, np.array([[q[u], q[v]] for q in clicks]))
    drawn = [a["mesh"] for a in p.actors.values() if a["mesh"] is not grid]
    W.check("clicks are drawn", len(drawn) == 2)
    for d in drawn:
        W.eq("drawn through the clicks", d.points, np.array(clicks))
    W.check("line through the clicks", any([int(i) for i in d.lines] == [len(clicks), *range(len(clicks))] for d in drawn))
    vs = [(c, a) for c, a in p.calls if c.startswith("view_")]
    W.check("view", len(vs) == 1 and vs[0][0] == "view_" + view[-2:] and bool(vs[0][1]["negative"]) == (view[0] == "-"))
    h = p.handlers["track_click_position"]
    W.check("right clicks", h["side"] == "right" and not h["double"] and p.shown == 1)


def refused(W):
    np, pv, pvg = W.np, W.pv, W.pvg
    m = MESHES["pixels-2d"]
    o = W.real("o", -50, 50)
    mesh = m.build(W, np.array([[o + float(r[0]), float(r[1]), float(r[2])] for r in m.ref]))
    bad = W.choice("view", ["abc", "-x", "3d"])
    f = W.choice("what", ["interactive_selection", "interactive_lasso_selection"])
    W.check("unknown view refused", W.raises(ValueError, getattr(pvg, f), mesh, Plotter(lambda p: None), view=bad))
    W.check("nothing chosen", len(pvg.interactive_lasso_selection(mesh, Plotter(lambda p: None))) == 0 and len(pvg.interactive_selection(mesh, Plotter(lambda p: None))) == 0)


def instances(tier):
    n = 4 if tier == "quick" else 5
    out = [
        Instance("picks-cells", picks, f"{n} picks", n=n, view="xy", replays=8),
        Instance("picks-points", picks, "3 picks", n=3, cells=4, mode="point", view="-yz", replays=8),
        Instance("picks-views", picks, "2 picks", n=2, cells=2, replays=8),
        Instance("lasso-cells", lasso, "3 cells", replays=8),
        Instance("lasso-points", lasso, "4 points", mesh="small", mode="point", shape="triangle", replays=8),
        Instance("lasso-2d", lasso, "3 cells", mesh="pixels-2d", shape="pentagon", views=("xy", "-xy"), replays=8),
        Instance("lasso-dart", lasso, "4 points", mesh="small", mode="point", shape="dart", views=("xy", "-xz", "yz"), replays=8),
        Instance("lasso-dart-cells", lasso, "3 cells", shape="dart", views=("xy", "-yz"), replays=8),
        Instance("refused", refused, "unknown views"),
    ]
    if tier != "quick":
        for k in ("voxels", "wedges", "mixed-3d", "polyhedra"):
            for s in SHAPES:
                out.append(Instance(f"lasso-{k}-{s}", lasso, f"{len(MESHES[k].cells)} cells", mesh=k, shape=s, replays=8))
        for s in SHAPES:
            out.append(Instance(f"lasso-points-{s}", lasso, "points", mesh="small", mode="point", shape=s, replays=8))
    return out
