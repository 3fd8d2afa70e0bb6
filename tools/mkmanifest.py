#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/config.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from tools.config import CHECKS, NOT_APPLICABLE
checks = []
for pid, c in sorted(CHECKS.items()):
    checks.append(dict(property=pid, quick_cmd="python3 check.py %s quick" % pid, thorough_cmd="python3 check.py %s thorough" % pid,
                       evidence_file="evidence/%s.json" % pid, technique=c["technique"], level=c.get("level", "exploration"),
                       level_note=c["note"]))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
na = [dict(property=p, reason=NOT_APPLICABLE.get(p, "check not built yet")) for p in ids if p not in CHECKS]
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na,
         notes="Checks compile /repo's current sources with harnesses in /verif/harness; no hooks in /repo. "
               "Replay a reported case with: python3 check.py <ID> --replay <path>.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
