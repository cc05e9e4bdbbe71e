#!/usr/bin/env python3
"""Write MANIFEST.json from the property list and the table of checks."""
import json, os, sys
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import check
V = os.path.dirname(here)
TECH = "TLA+ specification model-checked with TLC; behaviours generated from it replayed into the real code; recorded traces validated against it by TLC"
NOTE = ("Exhaustive on the specification within the stated bounds; the real code is bound to it by trace validation "
        "on the enumerated and generated cases. Trusts TLC, the compiler and the recording harness.")
import notes
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in check.TABLE:
        cmd = "python3 bin/check.py " + i
        checks.append({"property": i, "quick_cmd": cmd, "thorough_cmd": "VERIF_TIER=thorough " + cmd,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": notes.TECH.get(i, TECH), "level": "model_checking",
                       "level_note": notes.NOTE.get(i, NOTE)})
    else:
        na.append({"property": i, "reason": notes.NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "bash bin/setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks: every check compiles the sources of /repo's working tree unmodified. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
