"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing it)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B, H, ST, EX, MG, VO, GO = (f"pvgridder/core/{n}.py" for n in ("_base", "_helpers", "stack", "extrude", "merge", "voronoi", "geometric_objects"))
MI, PR, CO = (f"pvgridder/utils/{n}.py" for n in ("_misc", "_properties", "_connectivity"))

# id, title, statement, quantifier text, files, mechanism [(name, where)], why
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe), _na=na))


exec(open(os.path.join(V, "tools", "props.py")).read())

ids = [p["id"] for p in P]
assert len(set(ids)) == len(ids)
have = {f[:-3].upper() for f in os.listdir(os.path.join(V, "checks")) if f.startswith("c") and f[1:3].isdigit()}
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        if p["id"] in have or p["_na"]:
            f.write(json.dumps({k: v for k, v in p.items() if k != "_na"}) + "\n")
checks = []
for p in P:
    if p["id"] in have and not p["_na"]:
        checks.append(dict(
            property=p["id"],
            quick_cmd=f"/opt/venv/bin/python /verif/run.py {p['id']} quick",
            thorough_cmd=f"/opt/venv/bin/python /verif/run.py {p['id']} thorough",
            evidence_file=f"evidence/{p['id']}.json",
            technique="symbolic execution of the Python source with Z3 deciding every branch and obligation; counterexamples replayed on the real build",
            level="model_checking",
            level_note="Holds for every value of the symbolic inputs within the bounds stated per instance in the evidence; trusts the numpy/pyvista models in symx/ (validated by replaying path witnesses) and exact-real arithmetic. Paths the engine cannot encode are reported as inconclusive, replayed concretely and never alarmed on.",
        ))
m = dict(version=1, setup_cmd="/opt/venv/bin/python /verif/run.py --selftest", checks=checks, not_applicable=[dict(property=p["id"], reason=p["_na"]) for p in P if p["_na"]])
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks;", len(m["not_applicable"]), "not applicable; missing:", sorted(set(ids) - have - {p["id"] for p in P if p["_na"]}))
