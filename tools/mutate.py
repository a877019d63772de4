#!/usr/bin/env python3
"""Mutation analysis of the checks: which small edits of the source does no check report, though the tests pass?

    mutate.py list                              numbered mutants
    mutate.py run OUT.jsonl [start step [max]]  runs the checks (cheap first), then the tests, on every step-th mutant
The tables in space_groups.py and wallpaper_groups.py are sampled sparsely (C01-C04 decide them completely)."""
import ast
import copy
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
sys.path.insert(0, os.path.join(HERE, "tools"))
FILES = ["groco/groups/group.py", "groco/groups/wallpaper_groups.py", "groco/groups/space_groups.py", "groco/layers/__init__.py",
         "groco/layers/conv2d.py", "groco/layers/conv2d_transpose.py", "groco/layers/conv3d.py", "groco/layers/conv3d_transpose.py",
         "groco/layers/group_transforms.py", "groco/layers/padding.py", "groco/layers/pooling.py",
         "groco/utils/equivariance.py", "groco/utils/misc.py", "groco/utils/tensor_manips.py"]
CHEAP = ["C20", "C17", "C16", "C02", "C03", "C15", "C12", "C07", "C09", "C23", "C14"]
REST = ["C01", "C04", "C05", "C06", "C08", "C10", "C11", "C13", "C18", "C19", "C21", "C22", "C24"]
SWAPS = {"channels_first": "channels_last", "channels_last": "channels_first", "max": "average", "average": "max"}
OPS = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.FloorDiv: ast.Mult, ast.Mod: ast.FloorDiv}
CMP = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.In: ast.NotIn,
       ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}


def sites(tree):
    """(description, edit) pairs; edit(node) changes a deep copy's node in place or returns its replacement."""
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, str):
            docs.add(id(n.value))
            docs.add(id(n))
        if isinstance(n, ast.JoinedStr):
            for m in ast.walk(n):
                docs.add(id(m))
        if isinstance(n, (ast.AnnAssign, ast.arg)) and n.annotation is not None:
            for m in ast.walk(n.annotation):
                docs.add(id(m))
    out = []
    for i, n in enumerate(ast.walk(tree)):
        if id(n) in docs:
            continue
        if isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                out.append((i, "flip", lambda m: setattr(m, "value", not m.value)))
            elif isinstance(n.value, int):
                out.append((i, "+1", lambda m: setattr(m, "value", m.value + 1)))
                out.append((i, "-1", lambda m: setattr(m, "value", m.value - 1)))
            elif isinstance(n.value, str) and n.value in SWAPS:
                out.append((i, "swap", lambda m: setattr(m, "value", SWAPS[m.value])))
        elif isinstance(n, ast.BinOp) and type(n.op) in OPS:
            out.append((i, "op", lambda m: setattr(m, "op", OPS[type(m.op)]())))
        elif isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
            out.append((i, "cmp", lambda m: setattr(m, "ops", [CMP[type(m.ops[0])]()])))
        elif isinstance(n, ast.BoolOp):
            out.append((i, "first", lambda m: m.values[0]))
            out.append((i, "second", lambda m: m.values[1]))
        elif isinstance(n, ast.IfExp):
            out.append((i, "body", lambda m: m.body))
            out.append((i, "else", lambda m: m.orelse))
        elif isinstance(n, ast.If):
            out.append((i, "if True", lambda m: setattr(m, "test", ast.Constant(True))))
            out.append((i, "if False", lambda m: setattr(m, "test", ast.Constant(False))))
        elif isinstance(n, ast.UnaryOp):
            out.append((i, "no sign", lambda m: m.operand))
        elif isinstance(n, (ast.Assign, ast.AugAssign)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
            out.append((i, "delete", lambda m: ast.Pass()))
        elif isinstance(n, ast.Raise) or isinstance(n, ast.Assert):
            out.append((i, "delete", lambda m: ast.Pass()))
        if isinstance(n, ast.Call):
            for k in range(len(n.keywords)):
                out.append((i, f"drop {n.keywords[k].arg}", lambda m, k=k: m.keywords.pop(k) and None))
            if len(n.args) >= 2:
                out.append((i, "swap args", lambda m: setattr(m, "args", [m.args[1], m.args[0]] + m.args[2:])))
        if isinstance(n, ast.Slice):
            if n.lower is not None:
                out.append((i, "no lower", lambda m: setattr(m, "lower", None)))
            if n.upper is not None:
                out.append((i, "no upper", lambda m: setattr(m, "upper", None)))
        if isinstance(n, ast.comprehension) and n.ifs:
            out.append((i, "no filter", lambda m: setattr(m, "ifs", [])))
        if isinstance(n, ast.Return) and isinstance(n.value, ast.Name):
            pass
    return out


class Put(ast.NodeTransformer):
    def __init__(self, target, new):
        self.target, self.new = target, new

    def visit(self, node):
        if node is self.target:
            return self.new
        return self.generic_visit(node)


def mutants():
    out = []
    for f in FILES:
        src = open(os.path.join("/repo", f)).read()
        tree = ast.parse(src)
        ss = sites(tree)
        nodes = list(ast.walk(tree))
        if f.endswith("space_groups.py") or f.endswith("wallpaper_groups.py"):
            lists = {id(m) for n in nodes if isinstance(n, (ast.List, ast.Dict)) for m in ast.walk(n)}
            ss = [s for s in ss if id(nodes[s[0]]) not in lists] + [s for s in ss if id(nodes[s[0]]) in lists][::400]
        for i, what, edit in ss:
            out.append((f, i, what, edit, nodes[i].lineno if hasattr(nodes[i], "lineno") else 0))
    return out


def apply(m):
    f, i, what, edit, _ = m
    tree = ast.parse(open(os.path.join("/repo", f)).read())
    node = list(ast.walk(tree))[i]
    old = ast.unparse(node)
    r = edit(node)
    if isinstance(r, ast.AST):
        tree = Put(node, r).visit(tree)
        new = ast.unparse(r)
    else:
        new = ast.unparse(node)
    return ast.unparse(ast.fix_missing_locations(tree)), f"{old[:90]} -> {new[:90]}"


def one(args):
    k, m = args
    tmp = tempfile.mkdtemp(prefix="mut.", dir="/tmp")
    rec = {"k": k, "file": m[0], "line": m[4], "what": m[2]}
    try:
        try:
            text, rec["edit"] = apply(m)
            compile(text, m[0], "exec")
        except Exception as e:
            rec["result"] = "invalid " + str(e)[:60]
            return rec
        d = os.path.join(tmp, "repo")
        shutil.copytree("/repo", d, symlinks=True)
        open(os.path.join(d, m[0]), "w").write(text)
        env = dict(os.environ, GROCO_REPO=d, VERIF_SEED="1", PYTHONDONTWRITEBYTECODE="1", VERIF_JOBS="2")

        def run(ps):
            for p in ps:
                try:
                    r = subprocess.run(["python3", "check.py", p, "quick"], cwd=HERE, env=env, capture_output=True, text=True, timeout=900)
                except subprocess.TimeoutExpired:
                    rec.setdefault("noverdict", []).append(p)
                    continue
                if r.returncode == 1:
                    v = [x.strip()[:250] for x in r.stdout.splitlines() if x.startswith("  ")]
                    rec["result"] = "killed " + p
                    rec["why"] = v[:1]
                    return True
                if r.returncode:
                    rec.setdefault("noverdict", []).append(p)
        if run(CHEAP):
            return rec
        import mkseed
        import threading
        with LOCK:
            ok, miss = mkseed.tests_pass(d)
        if not ok:
            rec["result"] = "tests"
            return rec
        if not run(REST):
            rec["result"] = "SURVIVES"
        return rec
    finally:
        shutil.rmtree(tmp)


if __name__ == "__main__":
    import threading
    LOCK = threading.Lock()
    ms = mutants()
    if sys.argv[1] == "list":
        for k, m in enumerate(ms):
            print(k, m[0], m[4], m[2], apply(m)[1] if len(sys.argv) > 2 else "")
    else:
        a = [int(x) for x in sys.argv[3:]]
        start, step = (a + [0, 1])[:2] if len(a) >= 2 else (0, 1)
        order = list(enumerate(ms))
        random.Random(5).shuffle(order)
        order = order[start::step][: a[2] if len(a) > 2 else None]
        with open(sys.argv[2], "a") as out, ThreadPoolExecutor(4) as ex:
            for rec in ex.map(one, order):
                out.write(json.dumps(rec) + "\n")
                out.flush()
