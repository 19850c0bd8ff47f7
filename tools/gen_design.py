#!/usr/bin/env python3
"""Writes DESIGN.md: the hand-written part (design_head.md), then tables from specs.py, known_findings.json and seeded/."""
import json, os, sys
from collections import Counter
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(H); sys.path.insert(0, H)
import specs
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
c = Counter((j.prop, j.tier) for j in specs.jobs())
o = [open(H + "/design_head.md").read(), "## Bounds\n| Id | jobs quick/thorough | bounds | outside |\n|---|---|---|---|"]
for p in props:
    i = specs.INFO.get(p["id"])
    if c[(p["id"], "q")]: o.append("| %s %s | %d/%d | %s | %s |" % (p["id"], p["title"], c[(p["id"], "q")], c[(p["id"], "q")] + c[(p["id"], "t")], i["bounds"], i["outside"]))
o.append("\n## Not applicable")
m = json.load(open(V + "/MANIFEST.json"))
for n in m.get("not_applicable", []): o.append("* %s: %s" % (n.get("property", n.get("id")), n["reason"]))
k = json.load(open(V + "/known_findings.json"))
o.append("\n## Genuine defects found\nRepaired (one `fix:` commit each in /repo):\n")
o += ["* " + x for x in k["fixed"]]
o.append("\nRecorded, not repaired (a repair needs a redesign, e.g. MPI large-count datatypes):\n")
o += ["* %s (%s): %s" % (a, b["property"], b["what"]) for a, b in k["findings"].items()]
o.append("\n## Planted bugs\n| Bug | property | needs | check |\n|---|---|---|---|")
try: res = json.load(open(H + "/seed_results.json"))
except OSError: res = {}
for d in sorted(os.listdir(V + "/seeded")) if os.path.isdir(V + "/seeded") else []:
    t = json.load(open(V + "/seeded/" + d + "/meta.json"))
    o.append("| %s | %s | %s | %s |" % (d, t["property"], t["needs"], res.get(d, "not run yet")))
open(V + "/DESIGN.md", "w").write("\n".join(o) + "\n")
