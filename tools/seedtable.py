#!/usr/bin/env python3
"""Rewrites the table of planted changes at the end of DESIGN.md from seeded/*/meta.json.
NOTES: what is to be said about a change besides that its property's check catches it."""
import json, os
NOTES = {"c10-copybox-short": "also C09"}
p = "/verif/DESIGN.md"
s = open(p).read()
k = s.index("| change | what it needs | caught by |") if "| change | what it needs | caught by |" in s else len(s)
out = ["| change | what it needs | caught by |", "|---|---|---|"]
for i in sorted(os.listdir("/verif/seeded")):
    m = json.load(open("/verif/seeded/%s/meta.json" % i))
    out.append("| %s | %s | %s |" % (i, m["needs"].replace("|", "/"), m["property"] + (", " + NOTES[i] if i in NOTES else "")))
open(p, "w").write(s[:k] + "\n".join(out) + "\n")
