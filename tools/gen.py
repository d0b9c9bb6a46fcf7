#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (development helper; not used by any check)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from props import PROPS, NOT_APPLICABLE, NOTES
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        o = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["text"]},
             "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}
        if p.get("observe"):
            o["anchors"]["observe_at"] = p["observe"]
        f.write(json.dumps(o) + "\n")
checks = []
for p in PROPS:
    if p["id"] in {x["property"] for x in NOT_APPLICABLE}:
        continue
    checks.append({"property": p["id"],
                   "quick_cmd": "bash /verif/run.sh %s quick" % p["id"],
                   "thorough_cmd": "bash /verif/run.sh %s thorough" % p["id"],
                   "technique": p["technique"], "level": "exploration", "level_note": p["note"]})
m = {"version": 1, "setup_cmd": "bash /verif/setup.sh", "checks": checks, "not_applicable": NOT_APPLICABLE, "notes": NOTES}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
