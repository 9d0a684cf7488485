#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tool/props.py (one description per property, so that both stay in step)."""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tool"))
from props import PROPS  # noqa

LEVEL_NOTE = ("Decided from the source alone: clang's type-checked program is interpreted abstractly along every path of the anchored functions; "
              "values are symbolic terms, records and containers are built through the repository's own constructors, and no code of the repository is run. "
              "Assumes the models of the standard library (bmsa/models.py) and the engine itself; %s")

with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
        }) + "\n")

man = {"version": 1,
       "setup_cmd": "cd /verif && python3 -m bmsa.extract",
       "checks": [], "not_applicable": []}
for p in PROPS:
    if p.get("na"):
        man["not_applicable"].append({"property": p["id"], "reason": p["na"]})
        continue
    man["checks"].append({
        "property": p["id"],
        "quick_cmd": "python3 -m bmsa.runner " + p["id"],
        "thorough_cmd": "VERIF_TIER=thorough python3 -m bmsa.runner " + p["id"],
        "technique": "static analysis: " + p["technique"],
        "level": "other",
        "level_note": LEVEL_NOTE % p["note"],
    })
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
