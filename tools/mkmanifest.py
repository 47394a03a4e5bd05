#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({"property": i, "quick_cmd": "python3 run.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + i,
                       "technique": c.get("technique", "property-based testing: generated cases against a reference model, with shrinking; libFuzzer on the same targets in the thorough tier"),
                       "level": "exploration",
                       "level_note": c.get("note", "Searches generated inputs; everything explored held. Trusts the reference model in src/, clang 18, AddressSanitizer and the sandbox's libdivsufsort. Not a proof.")})
    else:
        na.append({"property": i, "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": checks, "not_applicable": na,
     "notes": "All checks share one engine (src/pbt.hpp, src/pbt_main.cpp) and one runner (run.py). No hooks in /repo are needed."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not yet")
