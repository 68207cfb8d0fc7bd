#!/usr/bin/env python3
"""Writes MANIFEST.json from vf/registry.py and properties.jsonl. Run: python3 tools/mkmanifest.py"""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
from vf import registry
props = [json.loads(l)["id"] for l in open(R + "/properties.jsonl")]
checks = []
for p in props:
    if p not in registry.CHECKS: continue
    checks.append({"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
                   "technique": registry.NOTES[p][0], "level": registry.CHECKS[p][2], "level_note": registry.NOTES[p][1]})
na = [{"property": p, "reason": registry.NA.get(p, "no check built yet")} for p in props if p not in registry.CHECKS]
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks are needed in /repo: the generator is driven through its command line and the generated code is driven through its public interface. "
              "Every check rebuilds the generator from /repo and regenerates the code it explores. Known findings and fixed defects: known-findings.txt; design: DESIGN.md."}
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1)
open(R + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks,", len(na), "not claimed")
