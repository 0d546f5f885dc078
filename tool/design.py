#!/usr/bin/env python3
"""Rewrites the generated tables of DESIGN.md (between <!-- x --> and <!-- /x -->) from
properties.jsonl, MANIFEST.json and seeded/*/meta.json."""
import json, os, re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
man = json.load(open(os.path.join(VERIF, "MANIFEST.json")))
props = {}
for l in open(os.path.join(VERIF, "properties.jsonl")):
    p = json.loads(l)
    props[p["id"]] = p

rows = ["| id | property | simulated and injected | oracle | why tests cannot |", "|---|---|---|---|---|"]
for c in man["checks"]:
    p = props[c["property"]]
    rows.append("| %s | %s | %s | %s | %s |" % (
        p["id"], p["title"], p["quantifier"]["text"], c["level_note"].split(" Seeded exploration")[0], p["why_tests_cant"]))
na = ["* **%s** %s: %s" % (n["property"], props[n["property"]]["title"], n["reason"]) for n in man["not_applicable"]]
seeded = ["| bug | property (check that reports it) | needs |", "|---|---|---|"]
ms = []
for d in sorted(os.listdir(os.path.join(VERIF, "seeded"))):
    m = json.load(open(os.path.join(VERIF, "seeded", d, "meta.json")))
    ms.append((m["property"], d, m["needs"]))
for p, d, n in sorted(ms):
    seeded.append("| %s | %s | %s |" % (d, p, n))

f = os.path.join(VERIF, "DESIGN.md")
t = open(f).read()
for name, body in (("table", rows), ("na", na), ("seeded", seeded)):
    t = re.sub(r"(<!-- %s -->\n).*?(<!-- /%s -->)" % (name, name), lambda m: m.group(1) + "\n".join(body) + "\n" + m.group(2), t, flags=re.S)
open(f, "w").write(t)
