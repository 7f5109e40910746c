#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from plan import PLAN, MODELS
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in PLAN:
        na.append({"property": i, "reason": "no check yet; work in progress"})
        continue
    pl = PLAN[i]
    mods = sorted({MODELS[m]["module"] + ".tla" for m in pl["models"]})
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py %s" % i,
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": "TLA+ specification (%s) model checked with TLC; scenarios generated from it and randomised full-width ones run on the real code; recorded traces judged by TLC against spec/UipTrace.tla" % ", ".join(mods + pl.get("spec", [])),
        "level": pl.get("level", "model_checking"),
        "level_note": pl.get("note", "Exhaustive over the small model; for the code, every recorded call is decided by the specification, so a violation shows if a generated or randomised scenario reaches it. Trusts TLC, the driver's projection of real values and the embedding of addresses as bit strings."),
    })
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "Specification in spec/, driver in harness/, orchestration in check.py and plan.py. No hooks in /repo are needed: every linearization point is a public call."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(checks), "checks,", len(na), "not claimed")
