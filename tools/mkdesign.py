#!/usr/bin/env python3
"""Writes DESIGN.md from the texts below, properties.jsonl, checks.py and known_findings.json."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks import CHECKS
props = [json.loads(l) for l in open(HERE + "/properties.jsonl") if l.strip()]
kf = json.load(open(HERE + "/known_findings.json"))
text = {}
cur = None
for l in open(HERE + "/tools/design_parts.md"):
    if l.startswith("@@ "):
        cur = l[3:].strip()
        text[cur] = ""
    else:
        text[cur] += l
out = [text["HEAD"]]
out.append("## Properties and how each is decided\n\n")
for p in props:
    c = CHECKS[p["id"]]
    out.append("### %s %s\n\n" % (p["id"], p["title"]))
    out.append("*Units:* %s.\n\n" % ", ".join(u["name"] for u in c["units"]))
    out.append("*Generated:* " + c["rule"].replace("Every case is a pure function of a byte tape drawn from a PRNG seeded with (VERIF_SEED, target, case number). ", "").strip() + "\n\n")
    out.append(text.get(p["id"], "").strip() + "\n\n")
out.append(text["TAIL"])
out.append("\n## Genuine defects found and repaired\n\n")
for f in kf["fixed"]:
    out.append("- " + (f if isinstance(f, str) else json.dumps(f)).replace("fixed: ", "") + "\n")
out.append("\nKnown findings recorded instead of repaired: %s\n" % (len(kf["findings"]) or "none."))
for f in kf["findings"]:
    out.append("- %s: %s\n" % (f["property"], f["what"]))
out.append("\n" + text["SEEDS"])
open(HERE + "/DESIGN.md", "w").write("".join(out))
