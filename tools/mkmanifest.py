#!/usr/bin/env python3
"""Regenerate MANIFEST.json: one check per property that has contracts."""
import glob
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
have = {re.match(r"c(\d+)", os.path.basename(f)).group(1) for f in glob.glob(HERE + "/contracts/c[0-9]*.py")}
notes = json.load(open(os.path.join(HERE, "tools", "level_notes.json")))
NA = json.load(open(os.path.join(HERE, "tools", "not_applicable.json")))
GEN = ("Contracts on the real source, executed symbolically for all sizes and values; every obligation discharged on each run. "
       "Trusts the verifier pvc and its model of torch (cross-checked by evaluating every contract on real torch), z3, reals for floats. ")
checks, na = [], []
for p in props:
    i = p["id"]
    if i[1:] in have and i not in NA:
        checks.append({"property": i, "quick_cmd": f"./run {i} quick", "thorough_cmd": f"./run {i} thorough",
                       "evidence_file": f"evidence/{i}.json",
                       "technique": "contract-based deductive verification (symbolic execution of the real source, own normaliser + z3)",
                       "level": "proof", "level_note": GEN + notes.get(i, "")})
    else:
        na.append({"property": i, "reason": NA.get(i, "no contract built yet")})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "Checks run with /opt/venv/bin/python (the project's own interpreter) plus z3 from /opt/veriftools. See DESIGN.md."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
