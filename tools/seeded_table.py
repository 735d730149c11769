#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md (from seeded/*/meta.json)."""
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = open(V + "/DESIGN.md").read(); k = "<!-- planted -->"
h = d.split(k)[0] + k + "\n"
h += "| bug | property (its check catches it) | what it breaks | needs |\n|---|---|---|---|\n"
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f)); h += "| %s | %s | %s | %s |\n" % (f.split("/")[-2], m["property"] + (" **missed**" if m.get("missed") else ""), m["what_it_breaks"], m["needs"])
open(V + "/DESIGN.md", "w").write(h)
