#!/usr/bin/env python3
"""Regenerates the "fixed" list of known_findings.json from the fix: commits (development aid, no check runs it)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WHAT = json.load(open(os.path.join(V, "tools", "fixed_what.json")))
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h\t%s"], capture_output=True, text=True).stdout
p = os.path.join(V, "known_findings.json")
d = json.load(open(p)) if os.path.exists(p) else {"findings": []}
d["fixed"] = []
for l in log.splitlines():
    h, s = l.split("\t")
    if s.startswith("fix:"):
        prop, what = WHAT[s]
        d["fixed"].append("fixed: property=%s %s %s" % (prop, h, what))
json.dump(d, open(p, "w"), indent=1)
