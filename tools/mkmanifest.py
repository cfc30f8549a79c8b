#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
NA = {}
exec(open(os.path.join(HERE, "tools", "manifest_notes.py")).read())
checks = []
for p in props:
    i = p["id"]
    if i in NA:
        continue
    checks.append({
        "property": i,
        "quick_cmd": "python3 tools/check.py %s quick" % i,
        "thorough_cmd": "python3 tools/check.py %s thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": "contract-based deductive verification of the Go source (SSA symbolic VCs, SMT)",
        "level": "proof",
        "level_note": NOTE.get(i, DEFAULT),
    })
m = {"version": 1, "setup_cmd": "tools/build.sh /tmp/verif-setup && rm -rf /tmp/verif-setup", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())],
     "notes": "No hooks in /repo. Repairs of genuine defects are the fix: commits listed in known_findings.txt."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
