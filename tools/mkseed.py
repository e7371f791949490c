"""Make and verify planted bugs from a table: python3 tools/mkseed.py TABLE.py [ID ...]

TABLE.py calls seed(id, property, file, [(old, new), ...], demo, needs, breaks) where demo is a Python program
that exits non-zero (assertion) when the bug is present.
"""
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = []


def seed(id, prop, file, edits, demo, needs, breaks):
    S.append((id, prop, [(file, o, n) for o, n in edits] if isinstance(file, str) else [(f, o, n) for f, (o, n) in zip(file, edits)], demo, needs, breaks))


SH = """#!/bin/bash
# run with cwd /repo
here=$(cd "$(dirname "$0")" && pwd)
PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$here/demo.py"
"""


def sh(cmd, cwd, env=None, timeout=900):
    try:
        return subprocess.run(cmd, cwd=cwd, env={**os.environ, **(env or {})}, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired as e:
        return subprocess.CompletedProcess(cmd, 124, str(e.stdout), str(e.stderr))


def one(s):
    id, prop, edits, demo, needs, breaks = s
    w = f"/tmp/seedwork/{id}"
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs("/tmp/seedwork", exist_ok=True)
    shutil.copytree("/repo", w, symlinks=True)
    d = os.path.join(V, "seeded", id)
    os.makedirs(d, exist_ok=True)
    open(f"{d}/demo.sh", "w").write(SH)
    os.chmod(f"{d}/demo.sh", 0o755)
    open(f"{d}/demo.py", "w").write(demo.strip() + "\n")
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(f"{d}/meta.json", "w"), indent=1)
    ok = sh(["bash", f"{d}/demo.sh"], w)
    try:
        for f, o, n in edits:
            p = os.path.join(w, f)
            t = open(p).read()
            if t.count(o) != 1:
                return id, f"snippet found {t.count(o)} times: {o!r}"
            open(p, "w").write(t.replace(o, n))
        diff = sh(["git", "diff"], w).stdout
        open(f"{d}/patch.diff", "w").write(diff)
        base = sh(["git", "rev-list", "--max-parents=0", "HEAD"], "/repo").stdout.strip()
        own = []
        for f in {f for f, _, _ in edits}:
            orig = set(sh(["git", "show", f"{base}:{f}"], "/repo").stdout.splitlines())
            own += [l for l in diff.splitlines() if l.startswith("-") and not l.startswith("---") and l[1:] not in orig]
        bad = sh(["bash", f"{d}/demo.sh"], w)
        t = sh(["xvfb-run", "-a", "/opt/venv/bin/python", "-m", "pytest", "-q", "-n", "2", "-p", "no:cacheprovider", "-W", "ignore", "--timeout=300", "tests"], w, {"PYTHONPATH": w, "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg"})
        tests = t.stdout.strip().splitlines()[-1:] or [t.stderr[-300:]]
        failed = [l for l in t.stdout.splitlines() if l.startswith("FAILED")]
        c = sh(["/opt/venv/bin/python", f"{V}/run.py", prop, "quick"], V, {"SYMX_REPO": w, "SYMX_OUT": f"/tmp/seedwork/out-{id}", "SYMX_JOBS": "2"})
        caught = c.returncode == 1 and f"VIOLATION property={prop} " in c.stdout
        msg = f"demo {ok.returncode}->{bad.returncode} | {tests[0]} | check {'CAUGHT' if caught else 'missed rc=%s' % c.returncode}"
        if ok.returncode != 0:
            msg += "\n   demo fails unpatched: " + ok.stderr[-400:]
        elif bad.returncode != 0:
            msg += "\n   demo: " + (bad.stderr.strip().splitlines() or ["?"])[-1]
        if own:
            msg += "\n   NOT ORIGINAL: " + " / ".join(own)
        failed = [l for l in failed if "topographic-terrain" not in l]
        if failed:
            msg += "\n   " + "\n   ".join(failed)
        if not caught:
            msg += "\n   " + c.stdout[-400:] + c.stderr[-400:]
        return id, msg
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == "__main__":
    exec(open(sys.argv[1]).read())
    todo = [s for s in S if len(sys.argv) < 3 or s[0] in sys.argv[2:]]
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        for id, msg in ex.map(one, todo):
            print(id, msg, flush=True)
