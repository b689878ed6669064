#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, props
with open("properties.jsonl", "w") as f:
    for p in props.PROPS:
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
        assert len(p["title"]) <= 80, p["id"]
man = {"version": 1, "setup_cmd": "python3 -c 'import vlib; vlib.build_tool()'", "checks": [], "not_applicable": []}
for p in props.PROPS:
    if "check" in p:
        c = p["check"]
        man["checks"].append({"property": p["id"], "quick_cmd": "python3 check.py " + p["id"],
                              "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p["id"],
                              "technique": c["technique"], "level": c.get("level", "other"), "level_note": c["note"]})
    else:
        man["not_applicable"].append({"property": p["id"], "reason": p["na"]})
json.dump(man, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
