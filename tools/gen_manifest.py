#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the harnesses present."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from configs import PROPERTIES, TECHNIQUE
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PROPERTIES:
        checks.append({
            "property": i,
            "quick_cmd": f"python3 check.py {i}",
            "thorough_cmd": f"python3 check.py {i}",
            "evidence_file": f"evidence/{i}.json",
            "technique": TECHNIQUE.get(i, "property-based testing: generated inputs against a reference model, with shrinking"),
            "level": "exploration",
            "level_note": "Sampled search: holds on every generated case (optimised build with assertions, plus address/undefined-behaviour sanitizer build; thorough adds AVX2 and clang builds and coverage-guided fuzzing). Trusts compilers, the reference implementations in the harness and the stated rounding tolerances.",
        })
    else:
        na.append({"property": i, "reason": "not claimed yet: check under construction"})
m = {"version": 1, "setup_cmd": "python3 -c \"import sys; sys.path.insert(0,'.'); import configs; print(len(configs.PROPERTIES), 'properties')\" && g++ --version | head -1",
     "checks": checks, "not_applicable": na,
     "notes": "Every check rebuilds its harness from /repo/include (header-only library) on each run; nothing is cached. No hooks are compiled into /repo."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
