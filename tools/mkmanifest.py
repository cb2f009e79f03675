#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the claimed properties."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(root, "vc"))
CLAIMED = json.load(open(os.path.join(root, "tools", "claimed.json")))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
NA = {}
COMMON = ("Contracts on every listed public function and on the rounding-policy methods, discharged function by function for all inputs over the LLVM IR "
          "clang generates from /repo's headers on every run. Trusted: clang's front end, the verifier's IR semantics, IEEE 754 operation semantics, z3/cvc5. Facts about real numbers and formats given to the solvers are proved in Lean (Mathlib) on every run. ")
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        checks.append({"property": i, "quick_cmd": "python3-vt vc/check.py %s quick" % i, "thorough_cmd": "python3-vt vc/check.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": CLAIMED[i].get("technique", "contract-based deductive verification (symbolic execution of the real code with contracts, SMT)"),
                       "level": CLAIMED[i].get("level", "proof"), "level_note": COMMON + CLAIMED[i].get("note", "")})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check is registered for it yet")})
json.dump({"version": 1, "setup_cmd": "mkdir -p evidence out && python3-vt -m compileall -q vc",
           "checks": checks, "not_applicable": na}, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", len(na), "not")
