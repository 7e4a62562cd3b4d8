#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from vt/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.dont_write_bytecode = True
from vt.props import PROPS, NOT_APPLICABLE
from vt.registry import REG
ids = [p["id"] for p in PROPS]
assert len(set(ids)) == len(ids)
assert set(ids) - {n[0] for n in NOT_APPLICABLE} == set(REG), (set(ids) ^ set(REG))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        assert p["statement"].count(". ") <= 2, p["id"]
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]},
                            "why_tests_cant": p["why"], "anchors": a}) + "\n")
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "checks": [{"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"],
                 "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                 "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"],
                 "level": p["level"], "level_note": p["note"]} for p in PROPS if p["id"] in REG],
     "not_applicable": [{"property": a, "reason": b} for a, b in NOT_APPLICABLE]}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(PROPS), "properties")
