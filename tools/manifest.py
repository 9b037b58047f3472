#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the contracts present (contracts/<id>.mjs)."""
import json, os, re
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ids = [json.loads(l)["id"] for l in open(os.path.join(R, "properties.jsonl"))]
NA = json.load(open(os.path.join(R, "tools/not_applicable.json")))
notes = json.load(open(os.path.join(R, "tools/level_notes.json")))
checks, na = [], []
BASE = "Every obligation generated from the current source text is discharged by z3/cvc5 for all inputs and iterations. Trusts the condition generator in engine/ and its models of built-ins and Vue; integers and reals are mathematical; partial correctness. "
for i in ids:
    if os.path.exists(os.path.join(R, "contracts", i + ".mjs")) and i not in NA:
        checks.append({"property": i, "quick_cmd": f"node bin/check.mjs {i}", "thorough_cmd": f"node bin/check.mjs {i}",
            "evidence_file": f"evidence/{i}.json",
            "technique": "contracts on the real functions, weakest preconditions over the TypeScript syntax trees, z3/cvc5",
            "level": "proof", "level_note": BASE + notes.get(i, "")})
    else:
        na.append({"property": i, "reason": NA.get(i, "no contract built yet")})
m = {"version": 1, "setup_cmd": "node bin/setup.mjs", "checks": checks, "not_applicable": na,
     "notes": "See DESIGN.md. No hooks in /repo: contracts are sidecar files keyed by function. known-findings.txt lists defects found."}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(checks), "claimed;", len(na), "not")
