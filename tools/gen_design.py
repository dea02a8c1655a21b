#!/usr/bin/env python3
"""Writes the per-property section of DESIGN.md from meta.py, and the table of seeded changes."""
import json, os, sys, glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from meta import PROPS

begin, end = "<!-- generated: properties -->", "<!-- end: properties -->"
path = os.path.join(VERIF, "DESIGN.md")
text = open(path).read()
out = []
for pid, p in PROPS.items():
    out.append(f"### {pid} {p['title']}\n")
    out.append(f"*Specified.* {p['statement']}\n")
    out.append(f"*Generated and monitored.* {p['rule']}\n")
    out.append(f"*Over.* {p['text']}. {p['why']}\n")
    out.append(f"*Assurance.* {p['note']}\n")
a, b = text.index(begin) + len(begin), text.index(end)
text = text[:a] + "\n\n" + "\n".join(out) + "\n" + text[b:]
begin, end = "<!-- generated: seeded -->", "<!-- end: seeded -->"
rows = ["| change | property | breaks | needs | caught by |", "|---|---|---|---|---|"]
caught = {}
c = os.path.join(VERIF, "tools", "caught.json")
if os.path.exists(c):
    caught = json.load(open(c))
for d in sorted(glob.glob(os.path.join(VERIF, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    n = os.path.basename(os.path.dirname(d))
    rows.append(f"| {n} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {', '.join(caught.get(n, {}).get('by', [])) or 'none yet'} |")
a, b = text.index(begin) + len(begin), text.index(end)
text = text[:a] + "\n\n" + "\n".join(rows) + "\n\n" + text[b:]
open(path, "w").write(text)
