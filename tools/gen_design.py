#!/usr/bin/env python3
"""DESIGN.md = tools/design_head.md + tables from properties, evidence and planted bugs."""
import glob, json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = [json.loads(l) for l in open(H + "/properties.jsonl")]
M = json.load(open(H + "/MANIFEST.json"))
tech = {c["property"]: c for c in M["checks"]}
na = {c["property"]: c["reason"] for c in M["not_applicable"]}
bugs = {}
for f in sorted(glob.glob(H + "/seeded/*/meta.json")):
    m = json.load(open(f))
    bugs.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(f)), m))
o = open(H + "/tools/design_head.md").read()
o += "## 8. Property by property\n\nOracle: the property's statement, written as obligations in the named module. Bounds: none unless stated.\n"
fams = [("chk_bits.rs", "C21 C22 C23 C24 C25 C26 C27 C28 C29"), ("chk_flow.rs", "C02 C04 C10 C13 C14 C15 C34 C35"), ("chk_lit.rs", "C03 C12"),
        ("chk_parse.rs", "C05 C06 C07 C08 C36"), ("chk_flags.rs", "C09"), ("chk_tree.rs", "C11 C33"), ("chk_small.rs", "C16 C17"),
        ("chk_ue2.rs", "C30"), ("chk_graph.rs", "C31 C32 C37"), ("chk_safe.rs", "C01 C18 C19 C20 C38")]
where = {p: f for f, ps in fams for p in ps.split()}
for p in P:
    i = p["id"]
    o += f"\n### {i} {p['title']}\n\n"
    if i in na:
        o += f"Not applicable: {na[i]}.\n"
        continue
    e = json.load(open(f"{H}/evidence/{i}.json"))
    c = e["coverage"]
    o += f"*Method* ({where[i]}): {tech[i]['technique']}.\n\n"
    if c.get("rules"):
        o += "*Decided*: " + "; ".join(c["rules"]) + ".\n\n"
    a = e.get("assumptions") or c.get("assumptions")
    if a:
        o += "*Assumes*: " + "; ".join(a) + ".\n\n"
    o += f"*Covers*: {c['discharged']} obligations over {c['functions_analysed']} functions.\n\n"
    if p.get("why_tests_cant"):
        o += f"*Why tests cannot*: {p['why_tests_cant']}\n\n"
    b = bugs.get(i, [])
    if b:
        o += "*Planted bugs caught*: " + ", ".join(x[0] for x in b) + ".\n"
o += "\n## 9. Planted bugs\n\n| bug | property, caught by | what it breaks | shows only with |\n|---|---|---|---|\n"
for i in sorted(bugs):
    for n, m in bugs[i]:
        o += f"| {n} | {i} | {m['what_it_breaks']} | {m['needs']} |\n"
open(H + "/DESIGN.md", "w").write(o)
