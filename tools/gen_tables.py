#!/usr/bin/env python3
"""Rewrites the tables of DESIGN.md: planted bugs (from seeded/*/meta.json) and the last quick run (from evidence/*.json)."""
import glob, json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = open(HERE + "/DESIGN.md").read()
rows = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
for m in sorted(glob.glob(HERE + "/seeded/*/meta.json")):
    j = json.load(open(m)); rows.append("| %s | %s | %s | %s |" % (m.split("/")[-2], j["property"], j["needs"].replace("|", "\\|"), j["property"]))
d = re.sub(r"\| bug \| property.*?\n\n", lambda _: "\n".join(rows) + "\n\n", d, flags=re.S)
rows = ["| check | states | transitions | seconds |", "|---|---|---|---|"]
for m in sorted(glob.glob(HERE + "/evidence/C*.json")):
    j = json.load(open(m)); c = j["coverage"]
    assert j["tier"] == "quick" and j["violations"] == 0, m
    rows.append("| %s | %d | %d | %d |" % (j["property"], c["states"], c["transitions"], round(j["wall_s"])))
d = re.sub(r"\| check \| states.*\Z", lambda _: "\n".join(rows) + "\n", d, flags=re.S)
open(HERE + "/DESIGN.md", "w").write(d)
