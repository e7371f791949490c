"""Judge realistic edits in bulk: python3 tools/probe.py TABLE.py OUT [JOBS] [NAME ...]

TABLE.py calls m(name, checks, file, old, new[, old, new ...]); the snippets are looked up in the source without
comments and docstrings (ast.unparse). For each edit the repository's tests and the quick checks are run on a copy.
"""
import ast
import concurrent.futures
import os
import re
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = []


def m(name, checks, file, *edits):
    M.append((name, checks.split(), "pvgridder/" + file, list(zip(edits[::2], edits[1::2]))))


def plain(src):
    t = ast.parse(src)
    for n in ast.walk(t):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) and isinstance(n.body[0].value.value, str):
            n.body[0] = ast.Pass()
    return ast.unparse(t)


def one(e):
    name, checks, file, edits = e
    w = f"/tmp/probe/{name}"
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree("/repo", w, symlinks=True, ignore=shutil.ignore_patterns(".git", "__pycache__"))
    try:
        p = f"{w}/{file}"
        t = plain(open(p).read())
        for o, n in edits:
            if t.count(o) != 1:
                return f"{name}: snippet found {t.count(o)} times: {o!r}"
            t = t.replace(o, n)
        ast.parse(t)
        open(p, "w").write(t)
        env = {**os.environ, "PYTHONPATH": w, "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg"}
        r = subprocess.run(["xvfb-run", "-a", "/opt/venv/bin/python", "-m", "pytest", "-q", "-n", "2", "-p", "no:cacheprovider", "-W", "ignore", "--timeout=300", "tests"], cwd=w, env=env, capture_output=True, text=True)
        bad = [l for l in r.stdout.splitlines() if l.startswith(("FAILED", "ERROR")) and "topographic-terrain" not in l]
        if bad and not os.environ.get("ANYWAY"):
            return f"{name}: tests fail ({len(bad)}): {bad[0][:90]}"
        out = []
        for c in checks:
            try:
                r = subprocess.run(["/opt/venv/bin/python", f"{V}/run.py", c, "quick"], cwd=V, env={**os.environ, "SYMX_REPO": w, "SYMX_OUT": w + "/out", "SYMX_JOBS": "2"}, capture_output=True, text=True, timeout=900)
                inc = re.search(r"inconclusive (\d+), incomplete (\d+)", r.stdout)
                out.append(f"{c} " + ("CAUGHT" if r.returncode == 1 and "VIOLATION" in r.stdout else f"missed rc={r.returncode} {inc[0] if inc and (inc[1], inc[2]) != ('0', '0') else ''}"))
            except subprocess.TimeoutExpired:
                out.append(f"{c} timeout")
        return f"{name}: {'TESTS FAIL ' if bad else ''}" + "; ".join(out)
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == "__main__":
    exec(open(sys.argv[1]).read())
    only = sys.argv[4:]
    done = set() if only or not os.path.exists(sys.argv[2]) else {l.split(":")[0] for l in open(sys.argv[2])}
    todo = [e for e in M if (not only or e[0] in only) and e[0] not in done]
    with concurrent.futures.ThreadPoolExecutor(int(sys.argv[3]) if len(sys.argv) > 3 else 3) as ex, open(sys.argv[2], "a") as f:
        for r in ex.map(one, todo):
            print(r, flush=True)
            f.write(r.replace("\n", " ") + "\n")
            f.flush()
