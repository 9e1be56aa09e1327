#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
m = dict(version=1, setup_cmd="python3 run.py selftest", checks=[], not_applicable=[],
         notes="All checks: run.py (builds /repo's working tree with the monitors of harness/ and runs the workloads). Replay: python3 run.py replay FILE.")
for p in props:
    if p in CHECKS:
        c = CHECKS[p]
        m["checks"].append(dict(property=p, quick_cmd="python3 run.py check " + p, thorough_cmd="python3 run.py check " + p + " --tier thorough",
                                technique=c["technique"], level="exploration", level_note=c["note"]))
    else:
        m["not_applicable"].append(dict(property=p, reason=NA.get(p, "check not built yet")))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
