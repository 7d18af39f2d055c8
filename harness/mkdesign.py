#!/usr/bin/env python3
"""Assembles DESIGN.md from its hand-written parts and the table of planted bugs."""
import json, os
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(H)
out = open(os.path.join(H, "design_head.md")).read() + "\n" + open(os.path.join(H, "design_tail.md")).read()
out += "## 6. Planted bugs (`seeded/`) and the checks that catch them\n\nEach was confirmed to build, pass the stable tests and fail its demonstration. Caught = quick tier, seed 1.\n\n| bug | what it breaks | result |\n|---|---|---|\n"
res = {}
p = os.path.join(H, "caught.json")
if os.path.exists(p):
    res = json.load(open(p))
S = os.path.join(V, "seeded")
for i in sorted(os.listdir(S)):
    m = json.load(open(os.path.join(S, i, "meta.json")))
    out += "| %s | %s | %s |\n" % (i, m["what_it_breaks"].replace("|", "\\|").replace("\n", " "), res.get(i, "not run"))
p = os.path.join(H, "design_end.md")
if os.path.exists(p):
    out += "\n" + open(p).read()
open(os.path.join(V, "DESIGN.md"), "w").write(out)
