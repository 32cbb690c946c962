#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py and harness/index."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, here)
import props
claimed = {f[:-5] for f in os.listdir(root + "/harness/index")}
na = {x["property"] for x in props.NA}
with open(root + "/properties.jsonl", "w") as f:
    for p in props.P:
        assert len(p["title"]) <= 80, p["title"]
        assert p["id"] in claimed or p["id"] in na, p["id"]
        f.write(json.dumps(p) + "\n")
ids = {p["id"] for p in props.P}
assert claimed <= ids, claimed - ids
checks = []
for p in props.P:
    i = p["id"]
    if i not in claimed: continue
    d = json.load(open(f"{root}/harness/index/{i}.json"))
    note = ("Bounded: for every input within the bounds (see evidence/%s.json) an SMT solver decides each branch and assertion of the real functions, executed symbolically from go/ssa of /repo's working tree; counterexamples are replayed on the compiled code before they are reported. Floats are exact extended reals (no rounding); library calls are modelled as listed in the evidence. Outside: %s." % (i, "; ".join(d.get("outside", [])) or "larger inputs"))
    checks.append(dict(property=i, quick_cmd=f"VERIF_TIER=quick ./check.sh {i}", thorough_cmd=f"VERIF_TIER=thorough ./check.sh {i}",
        technique="bounded symbolic execution of the Go SSA of /repo, path conditions and assertions decided by SMT (z3, cvc5), counterexamples replayed natively",
        level="model_checking", level_note=note))
json.dump(dict(version=1, setup_cmd="./setup.sh", hooks=dict(guard="none", enable="no hooks: harness packages are added to the build through an overlay", source_commits=[]),
    checks=checks, not_applicable=props.NA), open(root + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(props.NA), "not applicable")
