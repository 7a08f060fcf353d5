#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from mc.__main__ import find
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TECH = {"exploration": "model checking by bounded exhaustive enumeration of inputs on the real assembler against an independent reference model",
        "model_checking": "explicit-state bounded exhaustive exploration of statement histories on a reference model, every model trace replayed on the real assembler",
        "fault_enumeration": "exhaustive enumeration of injected I/O fault points on the real assembler"}
have = {f.split("_")[0].upper() for f in os.listdir(os.path.join(V, "mc", "checks")) if f.startswith("c") and f.endswith(".py")}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        c = find(i)
        checks.append({"property": i, "quick_cmd": "python3 -m mc %s --tier quick" % i,
                       "thorough_cmd": "python3 -m mc %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": getattr(c, "technique", None) or TECH[c.level], "level": c.level,
                       "level_note": getattr(c, "note", None) or c.rule})
    else:
        na.append({"property": i, "reason": "check not built yet (planned, see DESIGN.md)"})
m = {"version": 1, "setup_cmd": "python3 -m mc build", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
