#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_text.md, the seeded changes and their last results (seeded/RESULTS.json)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(os.path.join(V, "tools/design_text.md")).read()
res = {}
p = os.path.join(V, "seeded/RESULTS.json")
if os.path.exists(p):
    res = json.load(open(p))
rows = ["| change | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = os.path.join(V, "seeded", d, "meta.json")
    if os.path.exists(m):
        j = json.load(open(m))
        rows.append("| %s | %s | %s | %s | %s |" % (d, j["property"], j["what_it_breaks"], j["needs"], ", ".join(res.get(d, [])) or "not run"))
t = t.replace("@SEEDED@", "\n".join(rows))
k = json.load(open(os.path.join(V, "known_findings.json")))
t = t.replace("@KNOWN@", "\n".join("- %s, `%s` / `%s`: %s" % (x["property"], x["rule"], x["key"], x["what"]) for x in k["known"]))
t = t.replace("@FIXED@", "\n".join("- " + x for x in k["fixed"]))
open(os.path.join(V, "DESIGN.md"), "w").write(t)
