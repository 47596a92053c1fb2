#!/usr/bin/env python3
"""Assembles DESIGN.md from tools/design.md, the property table and known-findings.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from props_meta import PROPS, NOT_APPLICABLE
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = []
for p in PROPS:
    out.append(f"### {p['id']} {p['title']}\n\n{p['statement']}\n\n*Deciding method:* {p['technique']}.\n*Bounds:* {p['note']}\n*Why tests cannot settle it:* {p['why']}\n" + (("\n" + p['design'].strip() + "\n") if p.get('design') else ""))
fx = []
op = []
for l in open(f"{root}/known-findings.jsonl"):
    l = l.strip()
    if not l: continue
    d = json.loads(l)
    if d["status"] == "fixed":
        fx.append(f"* {d['property']} `{d['commit']}` {d['what']}")
    else:
        op.append(f"* {d['property']} (open) {d['what']}")
s = open(f"{root}/tools/design.md").read()
s = s.replace("@@PROPS@@", "\n".join(out)).replace("@@FIXED@@", "\n".join(fx)).replace("@@OPEN@@", "\n".join(op) or "None.")
seed = []
sd = f"{root}/seeded"
for d in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = f"{sd}/{d}/meta.json"
    if os.path.exists(m):
        j = json.load(open(m))
        seed.append(f"| {d} | {j['property']} | {j['what_it_breaks']} | {j.get('caught_by','')} |")
s = s.replace("@@SEEDED@@", "| change | property | breaks | caught by |\n|---|---|---|---|\n" + "\n".join(seed))
open(f"{root}/DESIGN.md", "w").write(s)
