#!/usr/bin/env python3
"""Fill the generated tables of DESIGN.md: repaired defects (KNOWN_FINDINGS) and planted bugs (seeded/*/meta.json, tools/seeded_results.json)."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(V + "/DESIGN.md").read()
fx = ["* `%s` (%s) %s" % (m.group(2), m.group(1), m.group(3)) for m in re.finditer(r"^fixed: property=(\S+) (\S+) (.*)$", open(V + "/KNOWN_FINDINGS").read(), re.M)]
try:
    res = json.load(open(V + "/tools/seeded_results.json"))
except OSError:
    res = {}
rows = ["| bug | property | what it breaks, and when | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m, i = json.load(open(d)), os.path.basename(os.path.dirname(d))
    rows.append("| %s | %s | %s *Needs:* %s | %s |" % (i, m["property"], m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"), res.get(i, "not measured yet")))
for name, body in (("fixes", fx), ("seeded", rows)):
    t = re.sub(r"<!-- %s -->.*?<!-- /%s -->" % (name, name), lambda _: "<!-- %s -->\n%s\n<!-- /%s -->" % (name, "\n".join(body), name), t, flags=re.S)
open(V + "/DESIGN.md", "w").write(t)
