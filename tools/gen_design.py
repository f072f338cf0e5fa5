#!/usr/bin/env python3
"""Fills the tables of DESIGN.md from tools/design.md, properties.jsonl, MANIFEST.json, evidence and seeded/."""
import json, os, re
R = "/verif/"
man = {c["property"]: c for c in json.load(open(R + "MANIFEST.json"))["checks"]}
out = []
exec(open(R + "tools/design_notes.py").read())
for l in open(R + "properties.jsonl"):
    p = json.loads(l)
    n = NOTES.get(p["id"], {})
    out.append(f"### {p['id']} {p['title']}\n")
    out.append(f"* Decided by: {man[p['id']]['technique']} ({man[p['id']]['level']}).")
    out.append(f"* Space: {p['quantifier']['text']}.")
    for k in ("oracle", "cost", "limits"):
        if k in n: out.append(f"* {k.capitalize()}: {n[k]}")
    out.append(f"* Beyond tests: {p['why_tests_cant']}\n")
s = open(R + "tools/design.md").read()
seeds = ["| id | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
for d in sorted(os.listdir(R + "seeded")):
    m = json.load(open(f"{R}seeded/{d}/meta.json"))
    seeds.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {CAUGHT.get(d, m['property'] + ' quick')} |")
open(R + "DESIGN.md", "w").write(s.replace("PROPTABLE", "\n".join(out)).replace("SEEDTABLE", "\n".join(seeds)))
