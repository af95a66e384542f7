#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| change | what it breaks | needs | caught by |", "|---|---|---|---|"]
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{d}/meta.json"))
    esc = lambda s: " ".join(s.split()).replace("|", "\\|")
    rows.append(f"| {d} | {esc(m['what_it_breaks'])} | {esc(m['needs'])} | {m.get('caught_by', m['property'])} |")
s = open(V + "/DESIGN.md").read()
s = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->", s, flags=re.S)
open(V + "/DESIGN.md", "w").write(s)
