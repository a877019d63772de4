#!/usr/bin/env python3
"""Decide one property of the program in /repo from its source.

    check.py <property> [quick|thorough]

exit 0: every obligation is discharged (or fails only in a way listed in KNOWN_FINDINGS)
exit 1: some obligation fails: one line `VIOLATION property=<id> replay=<path>` per failing construct
exit 2: no verdict: the analysis cannot represent the program, or lost a public name it starts from
"""
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

from rules import core, registry  # noqa: E402


def known(prop):
    out = {}
    with open(os.path.join(HERE, "KNOWN_FINDINGS")) as f:
        for line in f:
            if line.startswith(f"finding: property={prop} key="):
                key, _, text = line.split(" key=", 1)[1].partition(" :: ")
                out[key.strip()] = text.strip()
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    entry = registry.load(prop)
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    rep = core.Report(prop)
    broken = None
    stats = {}
    try:
        prog = core.Program()
        entry["fn"](prog, rep, tier == "thorough")
        stats = prog.stats(rep)
    except core.Missing as e:
        broken = f"public name {e} does not exist"
    except core.ImportFails as e:
        broken = f"importing {e.name} raises {e.e.exc.cls.name}{e.e.exc.attrs.get('args')}"
    except (core.Broken, core.Imprecise, core.Unsupported, core.sym.Undecided, core.PyRaise) as e:
        broken = f"{type(e).__name__}: {e}"
    except (core.TensorError, core.Scrambled) as e:
        broken = f"{type(e).__name__}: {e}"
    except Exception:  # noqa: BLE001  a defect of the analysis is not a verdict
        broken = traceback.format_exc()
    if rep.broken:
        broken = broken or f"{len(rep.broken)} case(s) not decided; first: {rep.broken[0]}"
    listed = known(prop)
    new = [v for k, v in rep.violations.items() if k not in listed]
    old = [v for k, v in rep.violations.items() if k in listed]
    if not rep.obligations and not broken:
        broken = "no obligation was generated"
    failing = sum(v["count"] for v in rep.violations.values())
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": entry.get("level", "proof"),
        "coverage": {
            "obligations": rep.obligations - sum(v["count"] for v in old),
            "discharged": rep.discharged,
            "checker_cmd": f"python3 check.py {prop} {tier}",
            "trusted_base": registry.TRUSTED + entry.get("trusted", []),
            "rule": entry["rule"],
            "explanation": entry["note"],
            "analysed": {**rep.counts, **stats},
            "samples": rep.samples[:8],
            "obligations_failing_as_listed_in_KNOWN_FINDINGS": sum(v["count"] for v in old),
        },
        "assumptions": entry.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    if broken:
        evidence["coverage"]["no_verdict"] = broken[:2000]
    with open(os.path.join(evdir, f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1, default=str)
    print(f"{prop} [{tier}]: {rep.obligations} obligations, {rep.discharged} discharged, {failing} failing, "
          f"{rep.counts}, {evidence['wall_s']} s")
    for v in old:
        print(f"KNOWN-FINDING: property={prop} {v['key']}: {listed[v['key']]}")
    for i, v in enumerate(new):
        path = os.path.join(evdir, f"{prop}-violation-{i}.txt")
        with open(path, "w") as f:
            f.write(f"property {prop}\nrule|construct {v['key']}\n{v['message']}\n"
                    f"where: {v['where']}\ncall path: {v['trace']}\noccurrences: {v['count']}\n"
                    f"reproduce: cd /verif && python3 check.py {prop} {tier}\n")
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  {v['key']} ({v['count']}x): {v['message'][:600]}")
        if v["where"]:
            print(f"  at {v['where']}")
        if v["trace"]:
            print(f"  through {v['trace']}")
    if new:
        return 1
    if broken:
        print(f"NO VERDICT property={prop}: {broken}")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
