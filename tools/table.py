"""Writes the table of planted bugs of DESIGN.md (development tool)."""
import glob
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
lines = ["| bug | property | caught by | breaks |", "|---|---|---|---|"]
res = {}
path = os.path.join(HERE, "tools", "caught.json")
if os.path.exists(path):
    res = json.load(open(path))
for d in sorted(glob.glob(f"{HERE}/seeded/*/meta.json")):
    name = d.split("/")[-2]
    m = json.load(open(d))
    lines.append(f"| {name} | {m['property']} | {res.get(name, '')} | {m['what_it_breaks']} |")
p = os.path.join(HERE, "DESIGN.md")
s = open(p).read()
mark = "<!-- planted bugs -->\n"
s = s.replace("SEEDED_TABLE", mark)
s = s[: s.index(mark) + len(mark)] + "\n" + "\n".join(lines) + "\n"
open(p, "w").write(s)
