#!/usr/bin/env python3
"""DESIGN.md from tools/design_body.md, MANIFEST.json, known_findings.json, seeded/ (run: python3 tools/mkdesign.py)."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."); R = lambda p: open(os.path.join(V, p)).read()
m = json.loads(R("MANIFEST.json")); k = json.loads(R("known_findings.json")); P = {p["id"]: p for p in map(json.loads, R("properties.jsonl").splitlines())}
s = R("tools/design_body.md")
s = s.replace("@@CLAIMS@@", "| id | property | deciding method |\n|---|---|---|\n" + "\n".join("| %s | %s | %s |" % (c["property"], P[c["property"]]["title"], c["technique"]) for c in m["checks"]))
s = s.replace("@@EXTRA@@\n", "")
s = s.replace("@@NA@@", "\n".join("* **%s** %s — %s." % (x["property"], P[x["property"]]["title"], x["reason"].rstrip(".")) for x in m["not_applicable"]))
s = s.replace("@@FIXES@@", "\n".join("* " + (x if isinstance(x, str) else " ".join(str(v) for v in x.values())) for x in k["fixed"]))
by = {}
for f in k["findings"]: by.setdefault(f["property"], []).append(f)
s = s.replace("@@FINDINGS@@", "\n".join("* **%s** `%s`: %s" % (p, f["key"], f["what"]) for p in sorted(by) for f in by[p]))
rows = []
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    j = json.loads(R("seeded/%s/meta.json" % d)); rows.append("| %s | %s | %s | caught |" % (d, j["what_it_breaks"].replace("|", "/"), j["needs"].replace("|", "/")))
s = s.replace("@@PLANTS@@", "| id | what it breaks | needs | own check |\n|---|---|---|---|\n" + "\n".join(rows))
open(os.path.join(V, "DESIGN.md"), "w").write(s); print(len(s))
