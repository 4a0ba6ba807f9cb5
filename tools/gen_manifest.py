#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks import CHECKS
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
NA = {"C25": "KEigenvalue::Solve is an unfinished stub (no worker is started, no source iterated): there is no behaviour to enumerate; C25 states what a finished implementation would owe."}
m = {"version": 1,
     "setup_cmd": "python3 run.py --setup",
     "checks": [dict(property=p, quick_cmd="python3 run.py %s --tier quick" % p, thorough_cmd="python3 run.py %s --tier thorough" % p,
                     evidence_file="evidence/%s.json" % p, technique=CHECKS[p]["technique"], level=CHECKS[p]["level"],
                     level_note=CHECKS[p]["note"]) for p in props if p in CHECKS],
     "not_applicable": [dict(property=p, reason=NA.get(p, "check not built yet")) for p in props if p not in CHECKS],
     "notes": "No hooks in /repo: harnesses link /repo/src directly; determinism is imposed from outside (choice RNG substituted at compile time with -include, interposed pthread calls, own __tsan_* runtime)."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
