#!/usr/bin/env python3
"""Development aid: fills the generated tables of DESIGN.md from DESIGN.in.md."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.dont_write_bytecode = True
from vt import props
s = open(os.path.join(V, "DESIGN.in.md")).read()
t = ""
for p in props.PROPS:
    t += "\n### %s %s\n\n%s\n\n* decided by: %s (%s)\n* machinery and oracle: %s\n* why tests cannot: %s\n" % (
        p["id"], p["title"], p["statement"], p["technique"], p["level"], p["note"], p["why"])
    if p.get("design"):
        t += "* " + p["design"] + "\n"
for p in props.NOT_APPLICABLE:
    t += "\n### %s (not claimed)\n\n%s\n" % (p["id"], p["reason"])
s = s.replace("@@PROPS@@", t)
k = json.load(open(os.path.join(V, "known_findings.json")))
s = s.replace("@@FIXED@@", "\n| property | commit | what failed |\n|---|---|---|\n" + "".join(
    "| %s | %s | %s |\n" % tuple(f.split("property=", 1)[1].split(" ", 2)) for f in k["fixed"]) +
    ("\n### Known findings (recorded, not repaired)\n\n" + "".join("* %s `%s`: %s\n" % (f["property"], f["key"], f["what"]) for f in k["findings"]) if k["findings"] else ""))
rows = ""
d = os.path.join(V, "seeded")
for i in sorted(os.listdir(d)):
    m = json.load(open(os.path.join(d, i, "meta.json")))
    rows += "| %s | %s | %s | %s | %s |\n" % (i, m["property"], m["needs"], m["what_it_breaks"], m.get("caught_by", "?"))
s = s.replace("@@SEEDED@@", "\n| id | property | needs | breaks | caught by |\n|---|---|---|---|---|\n" + rows)
open(os.path.join(V, "DESIGN.md"), "w").write(s)
