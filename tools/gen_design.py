#!/usr/bin/env python3
"""Writes the generated section (per property) of DESIGN.md from engine/notes.py and engine/registry.py."""
import json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from engine import registry
from engine.notes import NOTES
titles = {}
for l in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(l)
    titles[p["id"]] = p["title"]
out = []
for p in sorted(NOTES):
    st = registry.PROPS[p].stages()
    tpl = ", ".join(s.name + (f" (functions {s.only})" if getattr(s, "only", None) else "") for s in st)
    n = NOTES[p]
    out.append(f"### {p} {titles[p]}\n\n{n[0]}.\n\n{n[1]}\n\n* Stages: {tpl}; replay.\n* Assumed: " + "; ".join(n[2]) + ".\n")
d = os.path.join(ROOT, "DESIGN.md")
s = open(d).read()
a, b = "<!-- generated: properties -->\n", "<!-- end generated -->\n"
i, j = s.index(a) + len(a), s.index(b)
open(d, "w").write(s[:i] + "\n" + "\n".join(out) + "\n" + s[j:])
