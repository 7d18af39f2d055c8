#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registered checks."""
import json, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks import CHECKS, NOT_APPLICABLE
from mkprops import P
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks, na = [], []
for p in P:
    c = CHECKS.get(p["id"])
    if c is None:
        na.append(dict(property=p["id"], reason=NOT_APPLICABLE.get(p["id"], "no check built yet")))
        continue
    checks.append(dict(property=p["id"], quick_cmd="python3 check.py " + p["id"],
                       thorough_cmd="python3 check.py " + p["id"], technique=c["technique"],
                       level=c["level"], level_note=c["note"] or "bounded: see evidence and DESIGN.md"))
m = dict(version=1, setup_cmd="python3 setup_check.py",
         checks=checks, not_applicable=na,
         notes="TLA+ with TLC. One entry point, check.py <ID>; VERIF_TIER and VERIF_SEED are honoured. "
               "No hooks are needed in /repo.")
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
