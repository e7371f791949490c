"""Runs the quick checks on mutants that survive the tests; kill.py IN OUT JOBS"""
import glob
import json
import os
import queue
import re
import shutil
import subprocess
import sys
import threading

V = os.environ.get("KILL_VERIF", "/verif")
F, T = {}, {}
for f in sorted(glob.glob(f"{V}/evidence/C??.json")):
    d = json.load(open(f))
    c = os.path.basename(f)[:3]
    F[c] = {re.sub(r"\.<locals>|\.<lambda>", "", x) for x in d["coverage"]["functions_encoded"]}
    T[c] = d.get("wall_s") or 10


def checks_of(m):
    k = f"{m['file']}:{m['fn']}"
    cs = [c for c in F if k in F[c] or any(x.startswith(k + ".") for x in F[c])]
    if not cs:
        cs = [c for c in F if any(k.startswith(x + ".") for x in F[c])]
    return sorted(cs, key=lambda c: T[c] * (1 + len(F[c])))


def judge(m, jobs):
    d = f"/tmp/mw/c/{m['id']}"
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(os.environ.get("KILL_REPO", "/repo") + "/pvgridder", d + "/pvgridder", ignore=shutil.ignore_patterns("__pycache__"))
    p = f"{d}/{m['file']}"
    b = open(p, "rb").read()
    open(p, "wb").write(b[: m["start"]] + m["new"].encode() + b[m["end"] :])
    res = {}
    for c in checks_of(m):
        e = dict(os.environ, SYMX_REPO=d, SYMX_OUT=d + "/out", SYMX_JOBS=str(jobs), PYTHONDONTWRITEBYTECODE="1")
        try:
            r = subprocess.run(["/opt/venv/bin/python", f"{V}/run.py", c, "quick"], env=e, capture_output=True, text=True, timeout=400)
            res[c] = r.returncode
            inc = re.search(r"inconclusive (\d+), incomplete (\d+)", r.stdout)
            if inc and (inc[1] != "0" or inc[2] != "0"):
                res[c + "?"] = inc[0]
        except subprocess.TimeoutExpired:
            res[c] = -1
        if res[c] == 1:
            break
    shutil.rmtree(d, ignore_errors=True)
    return res


if __name__ == "__main__":
    ms = [json.loads(l) for l in open(sys.argv[1])]
    ms = [m for m in ms if m.get("rc", 0) == 0]
    done = {json.loads(l)["id"] for l in open(sys.argv[2])} if os.path.exists(sys.argv[2]) else set()
    todo = queue.Queue()
    for m in ms:
        if m["id"] not in done:
            todo.put(m)
    out = open(sys.argv[2], "a")
    lock = threading.Lock()

    def work():
        while True:
            try:
                m = todo.get_nowait()
            except queue.Empty:
                return
            r = judge(m, 2)
            with lock:
                out.write(json.dumps(dict(m, checks=r, killed=1 in r.values())) + "\n")
                out.flush()

    ts = [threading.Thread(target=work) for _ in range(int(sys.argv[3]))]
    [t.start() for t in ts]
    [t.join() for t in ts]
