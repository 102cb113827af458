#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a checks/pNN.py is claimed, the others are not_applicable."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTES = json.load(open(os.path.join(V, "tools", "levelnotes.json")))
NA = json.load(open(os.path.join(V, "tools", "notapplicable.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")) and i not in NA:
        n = NOTES[i]
        checks.append({"property": i, "quick_cmd": "VERIF_TIER=quick python3 run.py " + i,
                       "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + i,
                       "technique": n["technique"], "level": "model_checking", "level_note": n["note"]})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check has been built for this property yet")})
m = {"version": 1, "setup_cmd": "python3 tools/selftest.py", "checks": checks, "not_applicable": na,
     "notes": "TLA+ specifications in spec/, checked by TLC; conformance harnesses in harness/ are compiled against /repo by every check. No hooks in /repo are needed; fix: commits in /repo are listed in known_findings.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not claimed")
