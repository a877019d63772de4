#!/usr/bin/env python3
"""Runs, for every planted bug of seeded/, its property's check on a scratch copy of /repo with the bug; prints a table.
usage: detect.py [-a] [ids...]   (-a: every check, not only that of the bug's property)"""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, HERE)
from rules.registry import RULES  # noqa: E402


def main(args):
    every = "-a" in args
    ids = [a for a in args if a != "-a"] or sorted(os.listdir(os.path.join(HERE, "seeded")))
    scratch = f"/tmp/detect.{os.getpid()}"
    missed = []
    for i in ids:
        d = os.path.join(HERE, "seeded", i)
        prop = json.load(open(os.path.join(d, "meta.json")))["property"]
        shutil.rmtree(scratch, ignore_errors=True)
        shutil.copytree("/repo", scratch, symlinks=True)
        subprocess.run(["git", "-C", scratch, "apply", os.path.abspath(os.path.join(d, "patch.diff"))], check=True)
        caught = []
        for p in sorted(RULES) if every else [prop]:
            r = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), p, "quick"], capture_output=True, text=True,
                               env=dict(os.environ, GROCO_REPO=scratch))
            if r.returncode == 1 and f"VIOLATION property={p}" in r.stdout:
                caught.append(p)
            elif r.returncode != 0:
                caught.append(f"{p}: rc {r.returncode}")
        print(f"| {i} | {prop} | {', '.join(caught) or 'none'} |", flush=True)
        if prop not in caught:
            missed.append(i)
    shutil.rmtree(scratch, ignore_errors=True)
    print("missed:", missed or "none")


if __name__ == "__main__":
    main(sys.argv[1:])
