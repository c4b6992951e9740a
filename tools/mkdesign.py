#!/usr/bin/env python3
"""Assembles DESIGN.md from tools/design_*.md, the claims, and seeded/*/meta.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda n: open(f"{V}/tools/{n}").read().strip()
rows = ["| bug | property | what it breaks | caught by |", "|---|---|---|---|"]
sd = f"{V}/seeded"
for d in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = json.load(open(f"{sd}/{d}/meta.json"))
    rows.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {m.get('caught_by','?')} |")
t = rd("DESIGN.in.md").replace("@@PROPS@@", rd("design_props.md")).replace("@@FALSE@@", rd("design_false.md")).replace("@@SEEDED@@", "\n".join(rows))
open(f"{V}/DESIGN.md", "w").write(t + "\n")
