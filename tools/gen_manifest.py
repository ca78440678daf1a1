#!/usr/bin/env python3
"""Writes MANIFEST.json from harness/checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "harness"))
from checks import CHECKS, PKGS
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": []}
for i in ids:
    c = CHECKS.get(i)
    if c is None:
        m["not_applicable"].append({"property": i, "reason": "no check built yet; the family applies"})
        continue
    m["checks"].append({
        "property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py " + i,
        "technique": "property-based testing (rapid, seeded generation and shrinking): " + c["oracle"],
        "level": c["level"], "level_note": c["note"]})
with open(os.path.join(V, "MANIFEST.json"), "w") as fh:
    json.dump(m, fh, indent=1)
    fh.write("\n")
