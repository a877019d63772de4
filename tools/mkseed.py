#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from a definition file and confirms it in a scratch copy of /repo.

    mkseed.py DEFS.py [id ...]      DEFS.py defines SEEDS = [dict(id, property, edits=[(file, old, new)], demo, needs, breaks)]
A seed is kept only when the unchanged tree passes the demo, the changed tree builds, passes the stable tests and
fails the demo.  Then the checks run against the changed copy (GROCO_REPO) and the result is printed."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
ENV = dict(os.environ, KERAS_BACKEND="jax", JAX_PLATFORMS="cpu", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
DEMO = """#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
export KERAS_BACKEND=jax JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
exec /opt/venv/bin/python "$here/demo.py"
"""


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, **k)


def tests_pass(d):
    xml = os.path.join(d, "..", "r.xml")
    sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "-n", "8",
        "-o", "junit_family=xunit2", f"--junitxml={xml}", "tests"], d)
    import xml.etree.ElementTree as ET
    ok = set()
    for tc in ET.parse(xml).iter("testcase"):
        if not any(c.tag in ("failure", "error", "skipped") for c in tc):
            ok.add(f"{tc.get('classname')}::{tc.get('name')}")
    miss = STABLE - ok
    return not miss, sorted(miss)[:4]


def checks(d, props):
    got = {}
    for p in props:
        r = sh(["python3", "check.py", p, "quick"], HERE, timeout=900)
        got[p] = (r.returncode, r.stdout)
    return got


def run(s, only_checks=False):
    tmp = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
    try:
        d = os.path.join(tmp, "repo")
        shutil.copytree("/repo", d, symlinks=True)
        dst = os.path.join(tmp, s["id"])
        os.makedirs(dst)
        for f, old, new in s["edits"]:
            p = os.path.join(d, f)
            t = open(p).read()
            if t.count(old) != 1:
                return f"edit of {f} matches {t.count(old)} times"
            open(p, "w").write(t.replace(old, new))
        diff = sh(["git", "diff"], d).stdout
        open(os.path.join(dst, "patch.diff"), "w").write(diff)
        open(os.path.join(dst, "demo.py"), "w").write(s["demo"])
        open(os.path.join(dst, "demo.sh"), "w").write(DEMO)
        os.chmod(os.path.join(dst, "demo.sh"), 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(os.path.join(dst, "meta.json"), "w"), indent=1)
        if not only_checks:
            r = sh(["bash", os.path.join(dst, "demo.sh")], "/repo")
            if r.returncode:
                return "demo fails on the unchanged tree: " + r.stderr[-600:] + r.stdout[-300:]
            r = sh(["bash", os.path.join(dst, "demo.sh")], d)
            if not r.returncode:
                return "demo passes with the change"
            note = (r.stdout + r.stderr).strip().splitlines()[-1:]
            ok, miss = tests_pass(d)
            if not ok:
                return f"tests fail: {miss}"
            out = os.path.join(HERE, "seeded", s["id"])
            if os.path.exists(out):
                shutil.rmtree(out)
            shutil.copytree(dst, out)
        else:
            note = ""
        ENV["GROCO_REPO"] = d
        try:
            res = checks(d, PROPS or [s["property"]])
        finally:
            ENV.pop("GROCO_REPO", None)
        lines = [f"kept ({note})"]
        for p, (rc, out) in res.items():
            v = [x for x in out.splitlines() if x.startswith(("VIOLATION", "  ", "NO VERDICT"))]
            lines.append(f"   {p}: rc {rc} " + " / ".join(x.strip()[:230] for x in v[1:3] if rc == 1) + ("" if rc != 2 else v[-1][:300]))
        return "\n".join(lines)
    finally:
        shutil.rmtree(tmp)


if __name__ == "__main__":
    args = sys.argv[1:]
    only = "--checks" in args
    args = [a for a in args if a != "--checks"]
    PROPS = []
    if "-p" in args:
        i = args.index("-p")
        PROPS = args[i + 1].split(",")
        del args[i:i + 2]
    ns = {}
    exec(open(args[0]).read(), ns)
    for s in ns["SEEDS"]:
        if len(args) > 1 and s["id"] not in args[1:]:
            continue
        print(s["id"], s["property"], run(s, only), flush=True)
