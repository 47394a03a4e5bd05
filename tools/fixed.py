#!/usr/bin/env python3
"""tools/fixed.py PROPERTY COMMIT TEXT: record a repaired defect."""
import json, os, sys
f = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
k = json.load(open(f))
k["fixed"].append("fixed: property=%s %s %s" % (sys.argv[1], sys.argv[2], sys.argv[3]))
json.dump(k, open(f, "w"), indent=1)
