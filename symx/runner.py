"""Runs a property's harnesses: explore, discharge, replay on the real code, write evidence."""
from __future__ import annotations

import hashlib
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import warnings

import numpy as np
import z3

from . import core, stubs, sympv
from .core import Budget, Engine, PathEnd, Unsupported
from .world import Real, Skip, Sym

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SYMX_REPO", "/repo")
CTX = mp.get_context("fork")
NPROC = int(os.environ.get("SYMX_JOBS", "8"))


def real_pvg():
    sys.path.insert(0, REPO)
    import pvgridder

    p = os.path.realpath(pvgridder.__file__)
    if not p.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError(f"pvgridder comes from {p}")
    return pvgridder


class NoEnd(Exception):
    pass


class limit_s:
    """Ends code that does not come back (a loop that never ends)."""

    def __init__(self, seconds):
        self.s = seconds

    def __enter__(self):
        def ring(*_):
            raise NoEnd(f"still running after {self.s} s")

        self.old = signal.signal(signal.SIGALRM, ring)
        signal.setitimer(signal.ITIMER_REAL, self.s)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)


def replay(inst, values, pvg):
    """Run the harness on the real code.  -> (status, failed labels)"""
    w = Real(values, pvg)
    try:
        with limit_s(60), warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            inst.fn(w, **inst.kw)
    except Skip:
        return ("violated", w.failed) if w.failed else ("skip", [])
    except Exception as e:  # noqa: BLE001
        tb = traceback.extract_tb(e.__traceback__)
        where = next((f"{os.path.basename(f.filename)}:{f.lineno}" for f in reversed(tb) if f.filename.startswith(REPO)), None)
        if where is None and not inst.exc_anywhere:
            # the harness itself failed on what the code returned (e.g. a missing array)
            where = f"harness:{tb[-1].lineno}"
        return "violated", w.failed + [f"unexpected {type(e).__name__} at {where}: {str(e)[:200]}"]
    return ("violated", w.failed) if w.failed else ("ok", [])


class Instance:
    """One bounded claim: a harness with fixed sizes; everything else is symbolic."""

    exc_anywhere = False

    def __init__(self, name, fn, bounds="", /, max_paths=4000, replays=24, **kw):
        self.name, self.fn, self.kw, self.bounds = name, fn, kw, bounds
        self.max_paths = max_paths
        self.replays = replays


def functions_tracer(repo):
    """Record which functions of the repository were executed symbolically."""
    seen = set()
    mon = sys.monitoring
    tool = 3
    try:
        mon.use_tool_id(tool, "symx")
    except ValueError:
        return seen

    def start(code, off):
        f = code.co_filename
        if f.startswith(repo + "/pvgridder"):
            seen.add(f"{os.path.relpath(f, repo)}:{code.co_qualname}")
        return mon.DISABLE

    mon.register_callback(tool, mon.events.PY_START, start)
    mon.set_events(tool, mon.events.PY_START)
    return seen


def run_instance(inst, loader_pvg, pvg, tier, deadline, conn, known):
    res = dict(
        name=inst.name, bounds=inst.bounds, violations=[], inconclusive=[], replays=0, replay_skips=0, complete=False,
        samples=[], functions=[], paths_checked=0, obligations=0, discharged=0, vacuous=True, mismatches=0,
    )
    t0 = time.time()
    limit = max(1.0, deadline - t0)
    eng = Engine(max_paths=inst.max_paths, time_limit=limit, query_timeout_ms=10000 if tier == "quick" else 60000)
    seen = functions_tracer(REPO)
    budget = inst.replays if tier == "quick" else inst.replays * 5
    tried = set()
    concolic = [0.0]

    def confirm(values, labels, why):
        key = json.dumps(values, sort_keys=True)
        if key in tried:
            return None
        tried.add(key)
        conn.send(("replaying", inst.name, values))
        st, failed = replay(inst, values, pvg)
        conn.send(("replayed",))
        if os.environ.get("SYMX_DEBUG"):
            print("replay", inst.name, why, labels, values, st, failed, file=sys.stderr)
        res["replays"] += 1
        if st == "violated":
            res["violations"].append(dict(instance=inst.name, values=values, failed=failed[:8], why=why, labels=labels[:8]))
        elif st == "skip":
            res["replay_skips"] += 1
        return st

    def enough():
        n = sum(not known(v) for v in res["violations"])
        return n >= (1 if tier == "quick" else 3)

    def body():
        stubs.PAIR_ORDER["hook"] = None
        stubs.VORONOI["rings"] = None
        stubs.CLIPS.clear()
        sympv.NEAR["on"] = False
        stubs.GMSH.__init__()
        with limit_s(120), np.errstate(all="ignore"):
            inst.fn(Sym(eng, loader_pvg), **inst.kw)

    def on_path(kind, payload):
        if kind == "pruned":
            return False
        if kind == "exception":
            unsup = isinstance(payload, Unsupported)
            vals = _safe(lambda: eng.witness())
            msg = f"{type(payload).__name__}: {str(payload)[:160]}"
            tb = traceback.extract_tb(payload.__traceback__)
            msg += " @ " + " < ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in reversed(tb[-4:]))
            st = None
            if vals is not None:
                st = confirm(vals, [msg], "exception")
            if st == "violated":
                return enough()
            res["inconclusive"].append(("unsupported: " if unsup else "not reproduced: ") + msg)
            # concolic fallback: more inputs of the same path, fewer when there are many such paths
            if vals is not None and st != "violated":
                t1 = time.time()
                for i, extra in enumerate(_spread(eng, 10)):
                    if confirm(extra, [msg], "concolic") == "violated":
                        break
                    if i >= 2 and (time.time() - t1 > 3 or concolic[0] > 60):
                        break
                concolic[0] += time.time() - t1
            return len(res["inconclusive"]) > 400
        # obligations
        res["paths_checked"] += 1
        obls = eng.obls
        res["obligations"] += len(obls)
        bad = []
        if obls:
            r = eng.query(z3.Or([z3.Not(c) for _, c, _ in obls]))
            if r == z3.unsat:
                res["discharged"] += len(obls)
            else:
                for lab, c, s in obls:
                    q = eng.query(z3.Not(c))
                    if q == z3.unsat:
                        res["discharged"] += 1
                    elif q == z3.unknown:
                        res["inconclusive"].append(f"solver unknown: {lab}")
                        for extra in _spread(eng, 2):
                            confirm(extra, [lab], "unknown")
                    else:
                        bad.append((lab, c, s))
                        if len(bad) >= 4:
                            break
        res["vacuous"] = False
        for lab, c, s in bad:
            ok = False
            for extra in (z3.Not(s), z3.Not(c)):
                for nice in (True, False):
                    vals = _safe(lambda: eng.witness(extra, nice=nice))
                    if vals is None:
                        continue
                    st = confirm(vals, [lab], "counterexample")
                    if st == "violated":
                        ok = True
                        break
                if ok:
                    break
            if not ok and not res["violations"]:
                res["mismatches"] += 1
                res["inconclusive"].append(f"counterexample not reproduced: {lab}")
            if ok:
                break
        if not bad and res["replays"] < budget:
            vals = _safe(lambda: eng.generic(eng.stats["paths"])) if res["replays"] % 2 else None
            if vals is None:
                vals = _safe(lambda: eng.witness())
            if vals is not None:
                st = confirm(vals, [], "path witness")
                if len(res["samples"]) < 2:
                    res["samples"].append(dict(instance=inst.name, path=eng.stats["paths"], input=_short(vals), obligations=[l for l, _, _ in obls][:5] or "all syntactic", replay=st))
        return enough()

    try:
        res["complete"] = eng.explore(body, on_path)
    except Exception as e:  # noqa: BLE001
        res["inconclusive"].append("engine: " + "".join(traceback.format_exception(e))[-600:])
    res["stats"] = eng.stats
    res["functions"] = sorted(seen)
    res["wall_s"] = time.time() - t0
    conn.send(("done", res))
    conn.close()
    os._exit(0)


def _short(v, n=14):
    it = list(v.items())
    d = {k: (round(x, 6) if isinstance(x, float) else x) for k, x in it[:n]}
    if len(it) > n:
        d["..."] = len(it) - n
    return d


def _safe(f):
    try:
        return f()
    except Budget:
        raise
    except Exception:  # noqa: BLE001
        return None


def _spread(eng, n):
    """A few more solver-chosen inputs on the current path, spread over it."""
    for i in range(n):
        v = _safe(lambda: eng.generic((eng.stats["paths"], i)))
        if v is None:
            v = _safe(lambda: eng.witness())
        if v is None:
            break
        yield v


def schedule(instances, loader_pvg, pvg, tier, deadline, known, jobs=None):
    """Run the instances in child processes, at most NPROC at a time."""
    jobs = jobs or NPROC
    todo = list(instances)
    live = {}
    results = []
    crashed = []
    stop = False
    while todo or live:
        while todo and len(live) < jobs and not stop:
            inst = todo.pop(0)
            if time.time() > deadline:
                results.append(dict(name=inst.name, bounds=inst.bounds, violations=[], inconclusive=["time budget used up before this instance"], complete=False, stats={}, functions=[], samples=[], replays=0, obligations=0, discharged=0, paths_checked=0, vacuous=True, mismatches=0, wall_s=0.0))
                continue
            a, b = CTX.Pipe(duplex=False)
            p = CTX.Process(target=run_instance, args=(inst, loader_pvg, pvg, tier, deadline, b, known))
            p.start()
            b.close()
            live[a] = [p, inst, None]
        if not live:
            break
        ready = mp.connection.wait(list(live), timeout=1.0)
        now = time.time()
        for c in list(live):
            p, inst, cur = live[c]
            fin = None
            if c in ready:
                try:
                    msg = c.recv()
                    if msg[0] == "replaying":
                        live[c][2] = msg[2]
                    elif msg[0] == "replayed":
                        live[c][2] = None
                    else:
                        fin = msg[1]
                except EOFError:
                    fin = "crash"
            elif now > deadline + 30:
                fin = "late"
            if fin is None:
                continue
            del live[c]
            if fin in ("crash", "late"):
                p.kill()
                p.join()
                if fin == "crash" and cur is not None:
                    crashed.append((inst, cur))
                results.append(dict(name=inst.name, bounds=inst.bounds, violations=[], inconclusive=[f"worker {fin}" + (" during a replay" if cur else "")], complete=False, stats={}, functions=[], samples=[], replays=0, obligations=0, discharged=0, paths_checked=0, vacuous=True, mismatches=0, wall_s=0.0))
            else:
                p.join(5)
                results.append(fin)
                if tier == "quick" and any(not known(v) for v in fin["violations"]):
                    stop = True
                    todo = []
            c.close()
        if stop:
            for c in list(live):
                live[c][0].kill()
                live[c][0].join()
            live = {}
    # a native crash while replaying: run that input alone, twice
    for inst, vals in crashed:
        codes = []
        for _ in range(2):
            p = CTX.Process(target=lambda: os._exit(0 if replay(inst, vals, pvg)[0] != "violated" else 3))
            p.start()
            p.join(60)
            if p.is_alive():
                p.kill()
            codes.append(p.exitcode)
        if all(c is not None and c != 0 for c in codes):
            results.append(dict(name=inst.name, bounds=inst.bounds, violations=[dict(instance=inst.name, values=vals, failed=[f"process ended with {codes[0]}"], why="crash", labels=[])], inconclusive=[], complete=False, stats={}, functions=[], samples=[], replays=2, obligations=0, discharged=0, paths_checked=0, vacuous=True, mismatches=0, wall_s=0.0))
    return results


def load_findings():
    """Known findings: {property: [entries]} (see /verif/known_findings.json)."""
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("open", [])


def match_finding(f, pid, v):
    if f["property"] != pid or f["instance"] != v["instance"]:
        return False
    if not all(any(s in lab for s in f["labels"]) for lab in v["failed"]):
        return False
    return all(v["values"].get(k) == x for k, x in f.get("values", {}).items())


def main(pid, tier, only=None):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    z3.set_param("smt.random_seed", seed % 1000)
    sys.path.insert(0, VERIF)
    mod = importlib.import_module(f"checks.{pid.lower()}")
    from .loader import Loader

    pvg = real_pvg()
    load_err = None
    try:
        lp = Loader().load("pvgridder")
    except Exception as e:  # noqa: BLE001
        load_err = f"{type(e).__name__}: {e}"
        lp = None
    insts = mod.instances(tier)
    if only:
        insts = [i for i in insts if only in i.name]
    wall = float(os.environ.get("SYMX_WALL", getattr(mod, "WALL", {}).get(tier, 420 if tier == "quick" else 3000)))
    finds = [f for f in load_findings() if f["property"] == pid]
    if lp is None:
        print(f"symbolic load failed: {load_err}")
        results = []
    else:
        results = schedule(insts, lp, pvg, tier, t0 + wall, lambda v: any(match_finding(f, pid, v) for f in finds))
    viol = [v for r in results for v in r["violations"]]
    new, seenf = [], set()
    for v in viol:
        hit = next((i for i, f in enumerate(finds) if match_finding(f, pid, v)), None)
        if hit is None:
            new.append(v)
        else:
            seenf.add(hit)
    for i in sorted(seenf):
        print(f"KNOWN-FINDING: property={pid} {finds[i]['what']}")
    agg = lambda k: sum(r.get("stats", {}).get(k, 0) for r in results)
    inc = [f"{r['name']}: {x}" for r in results for x in r["inconclusive"]]
    incomplete = [r["name"] for r in results if not r["complete"]]
    funcs = sorted({f for r in results for f in r["functions"]})
    paths = sum(r["paths_checked"] for r in results)
    ev = dict(
        property=pid,
        tier=tier,
        seed=seed,
        level="model_checking",
        coverage=dict(
            states=agg("paths"),
            transitions=agg("forks") + agg("paths"),
            traces_validated_against_impl=sum(r["replays"] for r in results),
            samples=[s for r in results for s in r["samples"]][:6] or [dict(note="no path completed")],
            explanation="states = symbolic execution paths of the real code; transitions = solver-decided branches plus path ends; traces_validated = solver-chosen inputs replayed on the real build",
            functions_encoded=funcs,
            instances=[dict(name=r["name"], bounds=r["bounds"], paths=r.get("stats", {}).get("paths", 0), obligations=r["obligations"], discharged=r["discharged"], complete=r["complete"], reachable=not r["vacuous"], wall_s=round(r["wall_s"], 2)) for r in results],
            paths_completed=paths,
            obligations=agg("obligations"),
            obligations_closed_by_simplification=agg("syntactic"),
            obligations_sent_to_solver=sum(r["obligations"] for r in results),
            obligations_discharged_by_solver=sum(r["discharged"] for r in results),
            solver_queries=agg("queries"),
            solver_seconds=round(agg("solver_s"), 3),
            solver_unknown=agg("unknown"),
            inconclusive=inc[:40],
            inconclusive_count=len(inc),
            incomplete_instances=incomplete,
            vacuous_instances=[r["name"] for r in results if r["vacuous"]],
            bounds=getattr(mod, "BOUNDS", ""),
            symbolic_load_error=load_err,
        ),
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])) + COMMON,
        wall_s=round(time.time() - t0, 3),
        violations=len(new),
    )
    os.makedirs(os.path.join(os.environ.get("SYMX_OUT", VERIF), "evidence"), exist_ok=True)
    with open(os.path.join(os.environ.get("SYMX_OUT", VERIF), "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(
        f"{pid} {tier}: {len(results)} instances, {agg('paths')} paths, {agg('obligations')} obligations, "
        f"{agg('queries')} queries, solver {agg('solver_s'):.1f}s, replays {ev['coverage']['traces_validated_against_impl']}, "
        f"inconclusive {len(inc)}, incomplete {len(incomplete)}, wall {ev['wall_s']:.1f}s"
    )
    if os.environ.get("SYMX_VERBOSE"):
        for x in inc[:30]:
            print("  inconclusive:", x)
        for r in results:
            print(f"   {r['name']:40s} paths {r.get('stats',{}).get('paths',0):5d} obl {r['obligations']:6d} q {r.get('stats',{}).get('queries',0):6d} solver {r.get('stats',{}).get('solver_s',0):6.1f} wall {r['wall_s']:6.1f} complete {r['complete']} vac {r['vacuous']}")
    if new:
        v = new[0]
        h = hashlib.sha1(json.dumps(v, sort_keys=True, default=str).encode()).hexdigest()[:10]
        path = os.path.join(os.environ.get("SYMX_OUT", VERIF), "evidence", f"replay_{pid}_{h}.json")
        with open(path, "w") as f:
            json.dump(dict(property=pid, tier=tier, **v), f, indent=1, default=str)
        print("  instance:", v["instance"])
        print("  failed  :", "; ".join(map(str, v["failed"]))[:600])
        print("  input   :", json.dumps(_short(v["values"], 40)))
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    return 0


def main_replay(path):
    d = json.load(open(path))
    sys.path.insert(0, VERIF)
    mod = importlib.import_module(f"checks.{d['property'].lower()}")
    pvg = real_pvg()
    inst = next(i for t in ("quick", "thorough") for i in mod.instances(t) if i.name == d["instance"])
    st, failed = replay(inst, d["values"], pvg)
    print(st, failed)
    return 1 if st == "violated" else 0


def selftest():
    """The tools are there, the repository loads in both worlds, every check imports."""
    from .loader import Loader

    sys.path.insert(0, VERIF)
    real_pvg()
    Loader().load("pvgridder")
    n = 0
    for f in sorted(os.listdir(os.path.join(VERIF, "checks"))):
        if f.startswith("c") and f.endswith(".py"):
            n += len(importlib.import_module(f"checks.{f[:-3]}").instances("quick"))
    print(f"z3 {z3.get_version_string()}, {n} instances")
    return 0


COMMON = [
    "real arithmetic: coordinates are exact rationals/reals, float constants of the code keep their exact binary value; rounding of the implementation is outside the claim (replays absorb it with a tolerance)",
    "input magnitudes and sizes are bounded as stated per instance",
    "VTK/pyvista: topological filters are executed by VTK itself on the concrete topology; coordinate filters (merge of coincident points, translate, rotate, cell sizes, centres) follow the model in symx/sympv.py, validated by replaying path witnesses on the real build",
]
