#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the checks present in harness/."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys
sys.path.insert(0, V)
from tools.notes import TECH, NOTE
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)["id"]
    if os.path.exists(os.path.join(V, "harness", p.lower() + ".py")):
        checks.append(dict(property=p, quick_cmd="./check " + p, thorough_cmd="VERIF_TIER=thorough ./check " + p,
                           evidence_file="evidence/%s.json" % p, technique=TECH[p], level="model_checking",
                           level_note=NOTE[p]))
    else:
        na.append(dict(property=p, reason="no check built yet"))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="TLA+ specifications in spec/, checked with TLC; harness/ drives the real code and has TLC judge "
               "the recorded observations. No hooks in /repo are needed. See DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na], "not claimed")
