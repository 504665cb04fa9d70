#!/usr/bin/env python3
"""Writes MANIFEST.json for the properties with a registered check"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vlib import registry
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
commits = ["cec7017", "794095f"]
checks = []
na = []
for p in props:
    i = p["id"]
    if i in registry.CHECKS:
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s quick" % i,
            "thorough_cmd": "python3 check.py %s thorough" % i,
            "technique": registry.TECH.get(i, "TLA+ specification checked with TLC; traces of the real code, driven along "
                         "behaviours of the specification and random ones, validated against it by TLC"),
            "level": "model_checking",
            "level_note": registry.NOTE.get(i, "")})
    else:
        na.append({"property": i, "reason": "specification and harness for this part are not finished yet"})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "hooks": {"guard": "--cfg lxi_verif", "enable": "RUSTFLAGS=\"-Awarnings --cfg lxi_verif\" (set by vlib/core.py when it builds /verif/harness)",
               "source_commits": commits},
     "checks": checks, "not_applicable": na,
     "notes": "TLA+ specifications in spec/, Rust harness in harness/, runner in vlib/ and check.py. See DESIGN.md."}
for c in m["checks"]:
    if not c["level_note"]:
        c["level_note"] = ("The specification is checked exhaustively within small bounds; the code is bound to it by "
                           "validating recorded executions (sampled, seeded), so the code itself is explored, not proved. "
                           "Trusts TLC, the harness and the instrumented mutex.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
