#!/usr/bin/env python3
"""python3 check.py <PROPERTY> - decide one property of /repo by static analysis (nothing of /repo is run)."""
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
REPO = os.environ.get("VERIF_REPO", "/repo")

from sa.program import AnalysisBroken  # noqa: E402
from sa.ctx import Ctx  # noqa: E402


def known_findings(prop):
    out = {}
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            line = line.strip()
            if line.startswith("KNOWN-FINDING: ") and f"property={prop} " in line:
                key, _, what = line.partition(" key=")[2].partition(" :: ")
                out[key.strip()] = what.strip()
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    ctx = Ctx(REPO, prop, tier)
    broken = None
    try:
        mod = importlib.import_module(f"sa.rules.{prop}")
        mod.check(ctx)
        ctx.finish(mod)
    except AnalysisBroken as e:
        broken = f"{e}"
    except Exception:
        broken = traceback.format_exc()
    known = known_findings(prop)
    new = [v for v in ctx.violations if v["key"] not in known]
    old = [v for v in ctx.violations if v["key"] in known]
    os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "other",
        "coverage": ctx.coverage(), "assumptions": ctx.assumptions,
        "wall_s": round(time.time() - t0, 3), "violations": len(new),
    }
    if broken:
        ev["coverage"]["analysis_broken"] = broken
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")
    seen = set()
    for v in old:
        if v["key"] not in seen:
            print(f"KNOWN-FINDING: property={prop} {known[v['key']]}")
        seen.add(v["key"])
    for i, v in enumerate(new):
        path = os.path.join(HERE, "evidence", "replay", f"{prop}-{i + 1}.json")
        with open(path, "w", encoding="utf-8") as f:
            json.dump(v, f, indent=1, default=str)
        if i < 20:
            print(f"{v['where']}: [{v['rule']}] {v['msg']} (key {v['key']})")
            print(f"VIOLATION property={prop} replay={path}")
    if len(new) > 20:
        print(f"... and {len(new) - 20} more (see evidence)")
    if new:
        return 1
    if broken:
        print(f"ANALYSIS BROKEN property={prop}: {broken}", file=sys.stderr)
        return 2
    print(f"OK property={prop}: {ctx.summary()}")
    return 0


if __name__ == "__main__":
    sys.exit(main())
