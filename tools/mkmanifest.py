#!/usr/bin/env python3
"""Regenerate MANIFEST.json from properties.jsonl, checks/ and the tables below."""
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.insert(0, os.path.join(V, "analysis"))
NA = json.load(open(os.path.join(V, "tools", "not_applicable.json")))
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        m = importlib.import_module("checks." + i.lower())
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py " + i + " quick",
            "thorough_cmd": "python3 check.py " + i + " thorough",
            "technique": getattr(m, "TECHNIQUE", "static analysis: gated value-flow (abstract interpretation of monomorphised MIR)"),
            "level": getattr(m, "LEVEL", "other"),
            "level_note": getattr(m, "NOTE", "Decided for all inputs on the resolved MIR of the current tree. " + m.RULE + ". Trusted: rustc's MIR, the modelled behaviour of core/alloc/chrono/nom functions."),
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
json.dump({
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "checks": checks,
    "not_applicable": na,
    "notes": "All checks analyse /repo's current source through a rustc driver; none runs ikal. See DESIGN.md.",
}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable:", [x["property"] for x in na])
