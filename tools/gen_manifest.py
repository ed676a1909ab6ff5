#!/usr/bin/env python3
"""Writes MANIFEST.json from harness/config.py and the reasons below."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "harness"))
import config
T = ("symbolic execution of the LLVM IR compiled from /repo on every run (own engine, build/vpse), every assertion decided by rewriting and SMT (Z3) over all input values "
     "within the bounds; counterexamples replayed on the natively compiled code")
NA = {"C32": "the error bound is a statement about real-valued transcendental functions: deciding it needs real analysis of minimax polynomials composed with dozens of correctly rounded operations per input; no SMT theory available here (bit-blasted IEEE arithmetic, or reals without exp/log/sin) decides even one such query, so a solver verdict over all inputs is out of reach"}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in config.PROPS:
        c = config.PROPS[i]
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i} --tier quick", thorough_cmd=f"python3 check.py {i} --tier thorough", technique=c.get("technique", T), level="model_checking",
                           level_note="bounded: " + c.get("bounds", "") + ("; outside: " + c["outside"] if c.get("outside") else "")))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check has been built for it yet")))
m = dict(version=1, setup_cmd="make -s -j8 -C engine B=/verif/build", hooks=dict(guard="", enable="", source_commits=[]), checks=checks, not_applicable=na,
         notes="No hooks in /repo. engine/ is the symbolic executor, harness/ the specifications, lib/ the harness interface; see DESIGN.md.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
