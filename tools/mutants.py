"""Runs the repository's tests on the mutants listed by mutate.py; prints those that survive.  mutants.py LIST OUT JOBS"""
import json
import multiprocessing as mp
import os
import shutil
import sys

import gmsh, numpy, pyvista, scipy.interpolate, scipy.spatial, shapely, pytest  # noqa
import vtk  # noqa

ROOT = "/tmp/mw/run"
TESTS = ["tests/test_geometric_objects.py", "tests/test_misc.py", "tests/test_merge.py", "tests/test_properties.py", "tests/test_connectivity.py"]


def child(m, q):
    d = f"{ROOT}/{os.getpid()}"
    shutil.copytree("/repo/pvgridder", d + "/pvgridder", ignore=shutil.ignore_patterns("__pycache__"))
    shutil.copytree("/repo/tests", d + "/tests", ignore=shutil.ignore_patterns("__pycache__"))
    shutil.copy("/repo/pyproject.toml", d)
    p = f"{d}/{m['file']}"
    b = open(p, "rb").read()
    b = b[: m["start"]] + m["new"].encode() + b[m["end"] :]
    open(p, "wb").write(b)
    os.chdir(d)
    sys.path.insert(0, d)
    sys.dont_write_bytecode = True
    fd = os.open(os.devnull, os.O_WRONLY)
    os.dup2(fd, 1)
    os.dup2(fd, 2)
    try:
        compile(b, p, "exec")
        rc = pytest.main(["-x", "-q", "-p", "no:cacheprovider", "-p", "no:xdist", "-W", "ignore", "-k", "not topographic and not well-3d and not anticline-3d and not intersect_polyline and not voronoi_well_3d_flat", "--timeout=60", *TESTS])
    except BaseException:
        rc = 99
    q.put((m["id"], int(rc)))
    q.close()
    q.join_thread()
    os._exit(0)


def slot(m, res):
    q = mp.Queue()
    p = mp.Process(target=child, args=(m, q))
    p.start()
    p.join(150)
    rc = 98
    if p.is_alive():
        p.kill()
        p.join()
    elif not q.empty():
        rc = q.get()[1]
    shutil.rmtree(f"{ROOT}/{p.pid}", ignore_errors=True)
    res.put((m, rc))


if __name__ == "__main__":
    import threading
    import queue

    ms = [json.loads(l) for l in open(sys.argv[1])]
    done = set()
    if os.path.exists(sys.argv[2]):
        done = {json.loads(l)["id"] for l in open(sys.argv[2])}
    todo = queue.Queue()
    for m in ms:
        if m["id"] not in done:
            todo.put(m)
    os.makedirs(ROOT, exist_ok=True)
    lock = threading.Lock()
    out = open(sys.argv[2], "a")

    def work():
        while True:
            try:
                m = todo.get_nowait()
            except queue.Empty:
                return
            r = queue.Queue()
            slot(m, r)
            _, rc = r.get()
            with lock:
                out.write(json.dumps(dict(m, rc=rc)) + "\n")
                out.flush()

    ts = [threading.Thread(target=work) for _ in range(int(sys.argv[3]))]
    [t.start() for t in ts]
    [t.join() for t in ts]
