#!/usr/bin/env python3
# Writes MANIFEST.json from the registry and properties.jsonl.
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from checks.registry import CHECKS
P = [json.loads(l) for l in open(V + "/properties.jsonl")]
NOTE = "Exhaustive within the stated bounds on the real code built from the current tree; says nothing beyond the bounds. Assumes: "
m = dict(version=1, setup_cmd="true", checks=[], not_applicable=[])
for p in P:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append(dict(property=i, quick_cmd=f"python3 run.py {i} quick", thorough_cmd=f"python3 run.py {i} thorough", evidence_file=f"evidence/{i}.json",
            technique="model checking: " + c["technique"], level="model_checking", level_note="Bounds: " + c["bounds"] + ". " + NOTE + "; ".join(c["assumptions"]) + "."))
    else:
        m["not_applicable"].append(dict(property=i, reason="check not built yet"))
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
