#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/..")
late = set(open("tools/caught-late.txt").read().split())
rows = ["| bug | needs | caught by |", "|---|---|---|"]
for f in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(f))
    i = f.split("/")[1]
    rows.append(f"| {i} | {m['needs']} | {m['property']}{' (after strengthening)' if i in late else ''} |")
s = open("DESIGN.md").read()
s = re.sub(r"<!-- planted -->.*<!-- /planted -->", lambda _: "<!-- planted -->\n" + "\n".join(rows) + "\n<!-- /planted -->", s, flags=re.S)
open("DESIGN.md", "w").write(s)
