#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from props import PROPS, NOT_APPLICABLE, HOOKS
TECH = "symbolic execution of the compiled implementation (LLVM IR) with SMT (z3) deciding every branch and assertion; counterexamples replayed natively"
checks = []
for k in sorted(PROPS):
    p = PROPS[k]
    checks.append(dict(property=k, quick_cmd="python3 check.py %s --tier quick" % k,
                       thorough_cmd="python3 check.py %s --tier thorough" % k,
                       technique=TECH, level=p.get("level", "model_checking"), level_note=p["note"]))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in sorted(NOT_APPLICABLE.items())],
         hooks=HOOKS)
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
