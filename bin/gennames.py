#!/usr/bin/env python3
"""Records the local names of every function under contract, from the current (baseline) tree.
Contracts and proof hints use these names; extract.py maps the names of a later tree to them by position."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import extract
from props import PROPS
names = {}
for fs in sorted({tuple(c["files"]) for c in PROPS.values() if c["files"]}):
    o = extract.build([os.path.join(extract.HERE, "contracts", f + ".ov") for f in fs], {})
    names.update(o.names)
with open(os.path.join(extract.HERE, "contracts", "names.json"), "w") as f:
    json.dump(names, f, indent=0, sort_keys=True)
    f.write("\n")
