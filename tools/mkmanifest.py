#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/suites.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import suites
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
ids = [p["id"] for p in props]
checks, na = [], []
for i in ids:
    if i in suites.CHECKS:
        c = suites.CHECKS[i]
        checks.append({"property": i, "quick_cmd": "python3 checks/run.py %s" % i, "thorough_cmd": "VERIF_TIER=thorough python3 checks/run.py %s" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": c.get("technique", "TLA+ specification (TLC); runs of the real assembler checked as traces against it"),
                       "level": c["level"], "level_note": c.get("note", suites.NOTE)})
    else:
        na.append({"property": i, "reason": suites.NOT_YET.get(i, "not claimed yet: the specification does not cover it so far")})
m = {"version": 1, "setup_cmd": "python3 checks/setup.py", "checks": checks, "not_applicable": na,
     "notes": "TLA+ with TLC. No hooks in /repo: everything is observed from outside (exit code, diagnostics, output, symbol and listing files)."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "claimed,", len(na), "not")
