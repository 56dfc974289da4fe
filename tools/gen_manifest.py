#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of built checks."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TXT = "explicit TLA+ specification of the rules; TLC judges executions of the real code record by record"
LEVEL = {}
TECH = {}
def tx(ids, note):
    for i in ids.split():
        TECH[i] = "TLA+ specification (TLC) with conformance checking of recorded executions"
        LEVEL[i] = ("model_checking", note)
tx("V01 V02 V03 V04 V05 V06 V07 V08 V09 V10 V11 V12 V13 S01 S02 S04",
   "TLC evaluates the complete acceptance rule of the specification on every generated transaction and compares it with the verdict of the real validation, decoding and virtual machine, in both directions; one part of the transactions is enumerated by TLC from the families of CasesSyntax.tla (small tables around each boundary), the rest is generated at random, so inputs outside both are not covered")
import sys
sys.path.insert(0, ROOT)
from vlib import plans
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
for k, v in getattr(plans, "MANIFEST", {}).items():
    TECH[k], LEVEL[k] = v[0], (v[1], v[2])
checks, na = [], []
for p in props:
    if p in LEVEL:
        checks.append(dict(property=p, quick_cmd="python3 check.py %s" % p, thorough_cmd="python3 check.py %s thorough" % p,
                           technique=TECH[p], level=LEVEL[p][0], level_note=LEVEL[p][1]))
    else:
        na.append(dict(property=p, reason="check not built yet"))
m = dict(version=1, setup_cmd="bash setup.sh",
         hooks=dict(guard="none", enable="no hooks: the harness uses exported functions only", source_commits=[]),
         checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
