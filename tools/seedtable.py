#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md."""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for s in sorted(os.listdir(H + "/seeded")):
    m = json.load(open(f"{H}/seeded/{s}/meta.json"))
    rows.append(f"| {s} | {m['property']} | {m['what_it_breaks']} |")
t = "<!-- seeds -->\n| planted change | caught by | what it breaks |\n|---|---|---|\n" + "\n".join(rows) + "\n<!-- /seeds -->"
d = open(H + "/DESIGN.md").read()
open(H + "/DESIGN.md", "w").write(re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: t, d, flags=re.S))
