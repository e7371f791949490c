"""Mutants of the repository: writes {file, function, line, text, patch positions} as JSON lines (used by hand to look for gaps)."""
import ast
import copy
import json
import random
import sys

FILES = ["core/_base", "core/_helpers", "core/extrude", "core/geometric_objects", "core/merge", "core/stack", "core/voronoi", "utils/_connectivity", "utils/_misc", "utils/_properties"]
SKIP = {"intersect_polyline", "ray_cast", "interactive_selection", "interactive_lane"}
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.BitAnd: [ast.BitOr], ast.BitOr: [ast.BitAnd], ast.FloorDiv: [ast.Mult], ast.Mod: [ast.Add]}
NAMES = {"min": "max", "max": "min", "any": "all", "all": "any", "zeros": "ones", "ones": "zeros", "repeat": "tile", "tile": "repeat", "vstack": "hstack", "cumsum": "cumprod", "argsort": "argmin", "floor": "ceil", "cos": "sin", "sin": "cos", "minimum": "maximum", "maximum": "minimum", "argmin": "argmax", "argmax": "argmin"}


def variants(n, parent):
    """Replacement nodes of one node."""
    c = lambda: copy.deepcopy(n)
    if isinstance(n, ast.Compare):
        for i, o in enumerate(n.ops):
            for r in CMP.get(type(o), []):
                m = c()
                m.ops[i] = r()
                yield m
    elif isinstance(n, ast.BinOp):
        for r in BIN.get(type(n.op), []):
            m = c()
            m.op = r()
            yield m
        if isinstance(n.op, (ast.Add, ast.Sub)):
            yield n.left
    elif isinstance(n, ast.BoolOp):
        m = c()
        m.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
        yield m
        for i in range(len(n.values)):
            m = c()
            m.values.pop(i)
            yield m if len(m.values) > 1 else m.values[0]
    elif isinstance(n, ast.UnaryOp):
        if isinstance(n.op, (ast.Not, ast.USub, ast.Invert)):
            yield n.operand
    elif isinstance(n, ast.Constant):
        if n.value is True or n.value is False:
            yield ast.Constant(not n.value)
        elif isinstance(n.value, int):
            yield ast.Constant(n.value + 1)
            if n.value:
                yield ast.Constant(n.value - 1)
        elif isinstance(n.value, float):
            yield ast.Constant(n.value + 1.0)
            if n.value:
                yield ast.Constant(n.value * 0.5)
    elif isinstance(n, ast.IfExp):
        yield n.body
        yield n.orelse
    elif isinstance(n, ast.Call):
        for i in range(len(n.keywords)):
            if n.keywords[i].arg:
                m = c()
                m.keywords.pop(i)
                yield m
        if isinstance(n.func, ast.Attribute) and n.func.attr in NAMES:
            m = c()
            m.func.attr = NAMES[n.func.attr]
            yield m
        if isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "ravel", "astype", "T", "clean") :
            yield n.func.value
        if len(n.args) == 2:
            m = c()
            m.args = m.args[::-1]
            yield m
        if isinstance(n.func, (ast.Name, ast.Attribute)) and len(n.args) == 1 and getattr(n.func, "attr", getattr(n.func, "id", "")) in ("abs", "sorted", "unique", "flatnonzero"):
            yield n.args[0]
    elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
        m = c()
        m.slice = ast.Slice()
        yield m
    elif isinstance(n, (ast.If, ast.While)):
        m = c()
        m.test = ast.Constant(False)
        yield ("test", n.test, ast.Constant(False))
        yield ("test", n.test, ast.Constant(True)) if isinstance(n, ast.If) else ("test", n.test, ast.Constant(False))
    elif isinstance(n, (ast.Expr, ast.AugAssign, ast.Continue, ast.Break)) or (isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Subscript, ast.Attribute))):
        if not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            yield ast.Pass()


def main(repo, seed, limit):
    out = []
    for f in FILES:
        path = f"pvgridder/{f}.py"
        src = open(f"{repo}/{path}").read()
        tree = ast.parse(src)
        lines = src.split("\n")
        off = [0]
        for l in lines:
            off.append(off[-1] + len(l.encode()) + 1)
        b = src.encode()

        def pos(n):
            return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

        def visit(n, name, parent):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                nm = getattr(n, "name", "<lambda>")
                if nm in SKIP:
                    return
                if isinstance(n, ast.FunctionDef):
                    if any("overload" in ast.unparse(d) for d in n.decorator_list):
                        return
                    name = f"{name}.{nm}" if name else nm
                    for s in n.body:
                        visit(s, name, n)
                    for d in n.args.defaults:
                        visit(d, name, n)
                    return
            if isinstance(n, ast.ClassDef):
                for s in n.body:
                    visit(s, n.name, n)
                return
            if isinstance(n, (ast.Raise, ast.Import, ast.ImportFrom, ast.AnnAssign)):
                return
            if isinstance(n, ast.If) and "TYPE_CHECKING" in ast.unparse(n.test):
                return
            if isinstance(n, ast.Call) and ast.unparse(n.func) in ("cast", "isinstance"):
                for a in n.args[1:] if ast.unparse(n.func) == "cast" else n.args[:1]:
                    visit(a, name, n)
                return
            if name and hasattr(n, "lineno"):
                for v in variants(n, parent):
                    tgt = n
                    if isinstance(v, tuple):
                        _, tgt, v = v
                    s, e = pos(tgt)
                    t = ast.unparse(v)
                    if not isinstance(v, (ast.Pass, ast.Constant, ast.Name)):
                        t = f"({t})"
                    if b[s:e].decode() == t or f"({b[s:e].decode()})" == t:
                        continue
                    out.append(dict(file=path, fn=name, line=tgt.lineno, start=s, end=e, old=b[s:e].decode(), new=t))
            for k in ast.iter_child_nodes(n):
                if isinstance(n, ast.FunctionDef):
                    continue
                visit(k, name, n)

        for s in tree.body:
            visit(s, "", tree)
    random.Random(seed).shuffle(out)
    for i, m in enumerate(out[:limit]):
        m["id"] = i
        print(json.dumps(m))


main(sys.argv[1], int(sys.argv[2]), int(sys.argv[3]))
