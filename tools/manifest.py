#!/usr/bin/env python3
"""Writes MANIFEST.json from mc/plan.json and properties.jsonl."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
plan = json.load(open(os.path.join(HERE, "mc/plan.json")))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
T = "explicit exploration of the real code: every sequence of choices in bounded spaces, in lockstep with a reference model"
N = ("Every execution within the bounds written in DESIGN.md and in the evidence is run on the real library, rebuilt from "
     "the working tree (gcc, AddressSanitizer), and judged. Nothing is sampled. Beyond the bounds it says nothing.")
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=[], not_applicable=[])
for p in props:
    i = p["id"]
    if i in plan:
        m["checks"].append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
                                evidence_file="evidence/%s.json" % i, technique=plan[i].get("technique", T), level="model_checking",
                                level_note=plan[i].get("note", N)))
    else:
        m["not_applicable"].append(dict(property=i, reason="its check is not built yet"))
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
