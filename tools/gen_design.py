#!/usr/bin/env python3
"""Fills the generated sections of DESIGN.md: methods, defects, planted bugs."""
import json, os, re, sys
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, f"{root}/tools")
from methods import M
props = {json.loads(l)["id"]: json.loads(l) for l in open(f"{root}/properties.jsonl")}
def put(text, name, body):
    a, b = f"<!-- {name} -->", f"<!-- /{name} -->"
    i, j = text.index(a) + len(a), text.index(b)
    return text[:i] + "\n" + body + "\n" + text[j:]
t = open(f"{root}/DESIGN.md").read()
rows = []
for k, (g, o, b) in M.items():
    rows.append(f"**{k} {props[k]['title']}**  \nGenerated: {g}.  \nOracle: {o}." + (f"  \nBounds and limits: {b}." if b else "") + "\n")
t = put(t, "methods", "\n".join(rows))
fx = [l.strip() for l in open(f"{root}/tools/fixed.txt") if l.strip()]
t = put(t, "fixed", "\n".join("* " + re.sub(r"^fixed: property=(\w+) (\w+) ", r"\1 `\2`: ", l) for l in fx))
mt = {}
p = f"{root}/tools/matrix.txt"
if os.path.exists(p):
    for l in open(p):
        s, c = l.rstrip("\n").split(":")
        mt[s] = c.split()
seeds = []
for s in sorted(os.listdir(f"{root}/seeded")):
    m = json.load(open(f"{root}/seeded/{s}/meta.json"))
    seeds.append(f"| {s} | {m['property']} | {m['what_it_breaks']} | {' '.join(mt.get(s, ['?']))} |")
t = put(t, "seeds", "| planted bug | property | what it breaks | quick checks that report it |\n|---|---|---|---|\n" + "\n".join(seeds))
open(f"{root}/DESIGN.md", "w").write(t)
