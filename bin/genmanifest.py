#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOT_APPLICABLE
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)["id"]
    if p in PROPS:
        c = PROPS[p]
        checks.append({"property": p, "quick_cmd": f"python3 bin/check.py {p}", "thorough_cmd": f"env VERIF_TIER=thorough python3 bin/check.py {p}",
                       "technique": c.get("technique", "contract-based deductive verification (Verus) of functions extracted from /repo on every run; bounded companion searches for a failing input"),
                       "level": c["level"], "level_note": c["note"]})
        if c.get("theorems"):
            checks[-1]["theorems"] = c["theorems"]
    else:
        na.append({"property": p, "reason": NOT_APPLICABLE[p]})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo. bin/check.py extracts the functions under contract from /repo/src, runs Verus on them, and runs the bounded companion (harness/)."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
