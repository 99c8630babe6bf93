#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table of checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import checks
props = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl")) if x.strip()]
from notes import NOTES, NA
m = {"version": 1, "setup_cmd": "bin/setup", "checks": [], "not_applicable": [],
     "notes": "TLA+ checked with TLC. The driver in harness/ is compiled against /repo's working tree on every run (keyed by content). No hooks in /repo are needed."}
for p in props:
    i = p["id"]
    if i in checks.TABLE:
        m["checks"].append({"property": i, "quick_cmd": "bin/check %s quick" % i, "thorough_cmd": "bin/check %s thorough" % i,
                            "technique": "explicit TLA+ specification (TLC); TLC-generated behaviours replayed on the real code, recorded traces validated against the specification",
                            "level": "model_checking", "level_note": NOTES.get(i, NOTES["*"])})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "no check yet: under construction")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not claimed")
