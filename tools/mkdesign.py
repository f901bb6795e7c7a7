#!/usr/bin/env python3
"""Regenerates the generated part of DESIGN.md (bounds, planted bugs) from props.py, seeds.py and tools/results.json."""
import sys, json, os
V = "/verif"; sys.path[:0] = [V, V + "/tools"]
from props import PROPS
from seeds import SEEDS
R = json.load(open(V + "/tools/results.json")) if os.path.exists(V + "/tools/results.json") else {}
M = "\n<!-- generated by tools/mkdesign.py -->\n"
o = ["", "## 6. Bounds", ""]
for k, p in PROPS.items():
    o += [f"**{k}** ({len(p['entries'])} entries: {', '.join(e[4:] for e in p['entries'])}; async-std too: {', '.join(e[4:] for e in p['async_std']) or 'none'})", "",
          f"* quick: {p['bounds_quick']}", f"* thorough: {p['bounds_thorough']}", f"* outside: {p['outside']}", ""]
o += ["## 7. Planted bugs", "", "| id | needs | result of the property's quick check |", "|---|---|---|"]
for s in SEEDS: o.append(f"| {s['id']} | {s['needs'].replace('|', '/')} | {R.get(s['id'], 'not run')} |")
t = open(V + "/DESIGN.md").read().split(M)[0].rstrip() + "\n"
open(V + "/DESIGN.md", "w").write(t + M + "\n".join(o) + "\n")
