#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json (and the optional 'caught' notes)."""
import glob, json, os
V = "/verif"; M = "<!-- planted -->"; t = open(V + "/DESIGN.md").read().split(M)[0].rstrip()
rows = ["| bug | property | needs | what it breaks | caught by |", "|---|---|---|---|---|"]
notes = json.load(open(V + "/bin/caught.json")) if os.path.exists(V + "/bin/caught.json") else {}
for d in sorted(glob.glob(V + "/seeded/*/")):
    m = json.load(open(d + "meta.json")); i = os.path.basename(d.rstrip("/")); rows.append("| %s | %s | %s | %s | %s |" % (i, m["property"], m["needs"], m["what_it_breaks"], notes.get(i, m["property"])))
open(V + "/DESIGN.md", "w").write(t + "\n\n" + M + "\n" + "\n".join(rows) + "\n")
