#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, glob, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | property | what it breaks | caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob(here + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {m['what_it_breaks']} (needs: {m['needs']}) | {m.get('caught_by', m['property'])} |")
t = open(here + "/DESIGN.md").read()
block = "<!-- bugs -->\n" + "\n".join(rows) + "\n<!-- /bugs -->"
if "@@BUGS@@" in t:
    t = t.replace("@@BUGS@@", block)
else:
    t = re.sub(r"<!-- bugs -->.*<!-- /bugs -->", lambda _: block, t, flags=re.S)
open(here + "/DESIGN.md", "w").write(t)
