#!/usr/bin/env python3
# Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json.
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = open(V + "/DESIGN.md").read(); M = "<!-- table: tools/bugtable.py -->\n"
t = "\n| bug | caught by | breaks | needs |\n|---|---|---|---|\n"
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f)); c = lambda s: s.replace("|", "/").replace("\n", " ")
    t += f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {c(m['what_it_breaks'])} | {c(m['needs'])} |\n"
open(V + "/DESIGN.md", "w").write(d[:d.index(M) + len(M)] + t)
