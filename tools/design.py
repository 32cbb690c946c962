#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, tools/design_tail.md, tools/props.py, harness/index, known_findings.json and seeded/."""
import json, os, sys, re
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, here)
import props, oracles
fx = json.load(open(root + "/known_findings.json"))
out = [open(here + "/design_head.md").read().rstrip(), "", "## Properties", ""]
def b(v): return ", ".join(f"{k}={x}" for k, x in v.items()) if v else "-"
for p in props.P:
    i = p["id"]
    out += [f"### {i} {p['title']}", "", p["statement"], "", oracles.O[i].strip(), ""]
    f = f"{root}/harness/index/{i}.json"
    if not os.path.exists(f): continue
    d = json.load(open(f))
    out += ["| harness | inputs (all values decided symbolically) | quick | thorough |", "|---|---|---|---|"]
    for h in d["harnesses"]:
        n = h["func"] + (f" ({h['preempt']} preemptions)" if h.get("preempt", 0) > 0 else "")
        out.append(f"| {n} | {h.get('bound','-')} | {b(h.get('quick'))} | {b(h.get('thorough'))} |")
    out += ["", "Outside: " + "; ".join(d.get("outside", [])) + "."]
    if d.get("assume"): out += ["", "Assumed: " + "; ".join(d["assume"]) + "."]
    k = [e for e in fx if e["property"] == i]
    if k:
        out += ["", "Defects found on the original tree and repaired: " + "; ".join(f"{e['what']} (`{e['commit'][:7]}`)" for e in k) + "."]
    out.append("")
out += [open(here + "/design_tail.md").read().rstrip(), ""]
rows = []
sd = root + "/seeded"
res = json.load(open(here + "/caught.json")) if os.path.exists(here + "/caught.json") else {}
out += ["### Planted changes under seeded/", "", "| change | property | needs | caught by |", "|---|---|---|---|"]
for s in sorted(os.listdir(sd)):
    m = json.load(open(f"{sd}/{s}/meta.json"))
    out.append(f"| {s} | {m['property']} | {m['needs']} | {res.get(s, m['property'])} |")
open(root + "/DESIGN.md", "w").write("\n".join(out) + "\n")
