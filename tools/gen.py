#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run from /verif)."""
import json, sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, TECH, LEVEL, NA_EXTRA
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks, na = [], []
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
        assert len(p["title"]) <= 80, p["id"]
        if p["id"] in TECH:
            t = TECH[p["id"]]
            checks.append({"property": p["id"], "quick_cmd": "./check.sh " + p["id"],
                           "thorough_cmd": "./check.sh " + p["id"],
                           "evidence_file": "evidence/%s.json" % p["id"],
                           "technique": t["technique"], "level": LEVEL, "level_note": t["note"]})
        else:
            na.append({"property": p["id"], "reason": NA_EXTRA[p["id"]]})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "All checks are static: bin/chk type-checks /repo's current source, builds SSA and decides every rule on it; nothing of /repo is executed. No hooks are needed."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
