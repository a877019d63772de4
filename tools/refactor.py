#!/usr/bin/env python3
"""Runs the checks on behaviour-preserving rewrites of the repository (tools/refactorings/*.py).

    refactor.py [-t] [-p C01,C02] [id ...]
Each file defines EDITS = [(file, old, new)] and/or FILES = {file: text}.  -t also runs the repository's tests on the
rewritten copy (a rewrite that fails them is no rewrite).  Every check must exit 0."""
import concurrent.futures
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
sys.path.insert(0, os.path.join(HERE, "tools"))
import mkseed  # noqa: E402


def run(name, props, tests):
    ns = {}
    exec(open(os.path.join(HERE, "tools", "refactorings", name + ".py")).read(), ns)
    tmp = tempfile.mkdtemp(prefix="refac.", dir="/tmp")
    out = []
    try:
        d = os.path.join(tmp, "repo")
        shutil.copytree("/repo", d, symlinks=True)
        for f, text in ns.get("FILES", {}).items():
            open(os.path.join(d, f), "w").write(text)
        for f, old, new in ns.get("EDITS", []):
            p = os.path.join(d, f)
            t = open(p).read()
            if t.count(old) < 1:
                return f"{name}: edit of {f} does not match: {old[:60]!r}"
            open(p, "w").write(t.replace(old, new))
        if tests:
            ok, miss = mkseed.tests_pass(d)
            if not ok:
                return f"{name}: TESTS FAIL {miss}"
        env = dict(os.environ, GROCO_REPO=d, VERIF_SEED="1", PYTHONDONTWRITEBYTECODE="1")
        for p in props:
            r = subprocess.run(["python3", "check.py", p, "quick"], cwd=HERE, env=env, capture_output=True, text=True)
            if r.returncode:
                v = [x.strip()[:400] for x in (r.stdout + r.stderr).splitlines() if x.startswith(("VIOLATION", "  ", "NO VERDICT"))]
                out.append(f"   {p}: rc {r.returncode} " + " / ".join(v[:3]))
        return f"{name}: " + ("quiet" if not out else "\n" + "\n".join(out))
    finally:
        shutil.rmtree(tmp)


if __name__ == "__main__":
    args = sys.argv[1:]
    tests = "-t" in args
    args = [a for a in args if a != "-t"]
    props = [f"C{i:02d}" for i in range(1, 25)]
    if "-p" in args:
        i = args.index("-p")
        props = args[i + 1].split(",")
        del args[i:i + 2]
    names = args or sorted(f[:-3] for f in os.listdir(os.path.join(HERE, "tools", "refactorings")) if f.endswith(".py"))
    for n in names:
        print(run(n, props, tests), flush=True)
