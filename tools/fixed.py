#!/usr/bin/env python3
"""fixed.py PROP COMMIT WHAT: records a repaired defect in known-findings.jsonl"""
import json, sys, subprocess
p, commit, what = sys.argv[1:4]
h = subprocess.run(["git", "-C", "/repo", "rev-parse", "--short=12", commit], capture_output=True, text=True).stdout.strip()
d = dict(property=p, id="fixed-%s-%s" % (p, h[:7]), status="fixed", what="fixed: property=%s %s %s" % (p, h, what))
with open("/verif/known-findings.jsonl", "a") as f:
    f.write(json.dumps(d) + "\n")
