#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from tools/checks.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(H)
sys.path.insert(0, H)
from checks import CHECKS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        checks.append(dict(property=i,
            quick_cmd="python3 check.py %s --tier quick" % i,
            thorough_cmd="python3 check.py %s --tier thorough" % i,
            technique="TLA+ specification (%s) checked with TLC; TLC trace validation of recorded runs of the real code%s" % (
                c["trace"] + (", " + ", ".join(sorted({m for m, _ in c.get("mc", [])})) if c.get("mc") else ""),
                "; histories generated by TLC replayed into the real code" if c.get("gen") else ""),
            level=c.get("level", "model_checking"),
            level_note=c.get("note", c.get("rule", ""))))
na = [dict(property=i, reason=NOT_APPLICABLE.get(i, "not built yet: no specification bound to the code so far")) for i in ids if i not in CHECKS]
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
         notes="TLA+/TLC trace validation; see DESIGN.md. Only exported API is used: no hooks in /repo.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
