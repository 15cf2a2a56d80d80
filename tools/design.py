#!/usr/bin/env python3
"""Appends the generated per-property section and the seeded table to DESIGN.md (between markers)."""
import sys, os, json
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
import props, checks
o = ["<!-- generated by tools/design.py -->", "## Properties and how each is decided", ""]
det = {}
p = os.path.join(H, "tools", "design_notes.json")
if os.path.exists(p): det = json.load(open(p))
for q in props.P:
    c = checks.CHECKS.get(q["id"])
    o.append("### %s %s" % (q["id"], q["title"])); o.append("")
    if not c: o.append("Not claimed: " + checks.NOT_APPLICABLE.get(q["id"], "?")); o.append(""); continue
    o.append("*Enumerated:* " + c["bounds"] + ".")
    if q["id"] in det: o.append(det[q["id"]])
    o.append("*Why beyond tests:* " + q["why_tests_cant"]); o.append("")
o += ["## Seeded bugs", "", "| id | property | needs | caught by |", "|---|---|---|---|"]
sd = os.path.join(H, "seeded")
for d in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, d, "meta.json")))
    o.append("| %s | %s | %s | %s |" % (d, m["property"], str(m["needs"]).replace("|", "/"), det.get("seed:" + d, m["property"])))
o.append("")
f = os.path.join(H, "DESIGN.md"); t = open(f).read().split("<!-- generated by tools/design.py -->")[0].rstrip() + "\n\n"
open(f, "w").write(t + "\n".join(o))
