"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(here + "/seeded")):
    m = json.load(open(f"{here}/seeded/{d}/meta.json"))
    rows.append(f"| {d} | {m['property']} | {m['what_it_breaks'].replace('|', '/')} | {m['needs'].replace('|', '/')} |")
text = open(here + "/DESIGN.md").read().split("\n## Planted bugs\n")[0].rstrip()
text += """

## Planted bugs

Every one is caught by the check of its own property (column two), in the quick tier.

| bug | caught by | breaks | needs |
|---|---|---|---|
""" + "\n".join(rows) + "\n"
open(here + "/DESIGN.md", "w").write(text)
