#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os
from props import PROPS
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
checks = [{"property": p["id"], "quick_cmd": f"python3 check.py {p['id']}", "thorough_cmd": f"python3 check.py {p['id']} --tier thorough",
           "technique": p["technique"], "level": "model_checking", "level_note": p["note"], "evidence_file": f"evidence/{p['id']}.json"}
          for p in PROPS if os.path.exists(os.path.join(here, "harness", "drv", p["id"].lower() + ".cpp"))]
na = [{"property": p["id"], "reason": p.get("na", "check under construction")} for p in PROPS if p["id"] not in [c["property"] for c in checks]]
m = {"version": 1, "setup_cmd": "python3 check.py all", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
