#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.json-like data in props_data.py."""
import json, os
from props_data import PROPS, NOT_APPLICABLE
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(f"{root}/properties.jsonl", "w") as f:
    for p in PROPS + NOT_APPLICABLE:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None}}, ensure_ascii=False) + "\n")
        assert len(p["title"]) <= 80, p["title"]
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": [
        {"property": p["id"], "reason": p["reason"]} for p in NOT_APPLICABLE],
     "notes": "No hooks were added to /repo: every check drives the public API of the router crate or its HTTP endpoint. Repairs of genuine defects are the 'fix:' commits; see known_findings.txt."}
for p in PROPS:
    m["checks"].append({"property": p["id"], "quick_cmd": f"bash check.sh {p['id']}",
        "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {p['id']}",
        "evidence_file": f"evidence/{p['id']}.json", "technique": p["technique"], "level": "exploration", "level_note": p["note"]})
json.dump(m, open(f"{root}/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
