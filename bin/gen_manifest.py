#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per claimed property."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys
sys.path.insert(0, os.path.join(V, "bin"))
import check
TECH = "model-based verification: TLA+ specification explored by TLC, its transitions replayed on the real code, recorded executions validated by TLC as behaviours of the specification"

props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = dict(version=1, setup_cmd="bin/setup.sh", checks=[], not_applicable=[])
for p in props:
    i = p["id"]
    if i in check.CHECKS:
        doc = (check.CHECKS[i].__doc__ or "").strip()
        m["checks"].append(dict(property=i, quick_cmd="VERIF_TIER=quick bin/check.py " + i, thorough_cmd="VERIF_TIER=thorough bin/check.py " + i,
                                technique=TECH, level="model_checking",
                                level_note=" ".join(doc.split()) or "Trace validation of the real code against the specification over the inputs described in DESIGN.md."))
    else:
        m["not_applicable"].append(dict(property=i, reason="check not built yet"))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
