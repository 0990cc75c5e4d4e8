#!/usr/bin/env python3
"""Writes MANIFEST.json from harness/props.py and properties.jsonl."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(V, "harness"))
from props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        checks.append({"property": i, "quick_cmd": f"python3 harness/check.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 harness/check.py {i}",
                       "technique": p.get("technique", f"TLA+ specification ({p['trace']}.tla) checked by TLC; every recorded call of the real code judged by TLC trace validation, inputs partly enumerated by TLC from the design models"),
                       "level": "model_checking",
                       "level_note": p.get("note", "Each recorded execution is judged exactly by TLC against the specification; the design models are exhaustive within the constants of their .cfg. Code behaviour on inputs that were not generated is not covered.")})
na = [{"property": i, "reason": NOT_APPLICABLE.get(i, "check not built yet")} for i in ids if i not in PROPS]
json.dump({"version": 1, "setup_cmd": "python3 harness/setup.py", "checks": checks, "not_applicable": na,
           "notes": "TLA+ checked with TLC. No hooks in /repo: every property is observable at the public API."}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
