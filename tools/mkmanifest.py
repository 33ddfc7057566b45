#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (single source of the texts)."""
import json, os, runpy
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
m = runpy.run_path(os.path.join(HERE, "tools", "props.py"))
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in m["PROPS"]:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
checks = []
for p in m["PROPS"]:
    if p.get("level"):
        checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
                       "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                       "technique": p["technique"], "level": p["level"], "level_note": p["level_note"]})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks,
           "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in m["PROPS"] if p.get("na")],
           "notes": "Contracts in contracts/, verifier in pydv/. Evidence lists every assumption. See DESIGN.md."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed")
