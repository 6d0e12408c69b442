#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks."""
import json, os, sys
sys.dont_write_bytecode = True
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, R)
from vlib import checks
TRACE = ("Every recorded behaviour of the real code is judged in every state by an executable TLA+ specification in TLC; sound for the "
         "programs explored (seeded random, bounded sizes), no proof beyond them. Trusted: TLC, the specification's reading of the "
         "property, the harness that drives the public API and records what it answers, SQLite. ")
MC = "The design models named in the evidence are explored exhaustively within their bounds. "
NA = checks.NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
out = {"version": 1,
       "setup_cmd": "python3 setup.py",
       "hooks": {"guard": "none", "enable": "no hooks: the harness crate uses public items only", "source_commits": []},
       "checks": [], "not_applicable": [],
       "notes": "python3 check.py <ID> [quick|thorough]; see DESIGN.md."}
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        out["checks"].append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i} thorough",
                              "evidence_file": f"evidence/{i}.json", "technique": checks.TECHNIQUE.get(i, checks.TECH_TRACE),
                              "level": "model_checking",
                              "level_note": TRACE + (MC if i in checks.MODELS else "") + checks.NOTES.get(i, "")})
    else:
        out["not_applicable"].append({"property": i, "reason": NA.get(i, "no check has been built for it yet")})
json.dump(out, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(out["checks"]), "claimed")
