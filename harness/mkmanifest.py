#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table of checks."""
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open(os.path.join(V, "harness", "check.py")).read()
ns = {}
exec(src[src.index("CHECKS = {"): src.index("def main")], ns)
CHECKS, TECH, NOTES, NA = ns["CHECKS"], ns["TECH"], ns["NOTES"], ns["NOT_APPLICABLE"]
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "java -version && /opt/venv/bin/python -c 'import fluent.syntax, fluent.runtime'",
     "checks": [], "not_applicable": [],
     "notes": "Specification: TLA+ in spec/, checked with TLC. Conformance: harness/check.py ID records runs of the code in /repo and has TLC validate them against the specification."}
for p in props:
    i = p["id"]
    if i in CHECKS:
        cmd = "/opt/venv/bin/python harness/check.py " + i
        m["checks"].append({"property": i, "quick_cmd": cmd, "thorough_cmd": "VERIF_TIER=thorough " + cmd, "technique": TECH[CHECKS[i]], "level": "model_checking", "level_note": NOTES[CHECKS[i]]})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "no check yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
