#!/usr/bin/env python3
"""addfix.py PROPERTY COMMIT WHAT: append a fixed entry to known_findings.json (development tool; no check runs it)"""
import json, sys
p, c, w = sys.argv[1:4]
f = "/verif/known_findings.json"
d = json.load(open(f))
d.append(dict(status="fixed", property=p, commit=c, what=w, entry=f"fixed: property={p} {c} {w}"))
json.dump(d, open(f, "w"), indent=1); open(f, "a").write("\n")
