#!/usr/bin/env python3
"""Writes MANIFEST.json (run by hand when a check is added)."""
import json, os
PY = "/opt/venv/bin/python"
here = os.path.dirname(os.path.abspath(__file__))
NOTES = {}
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(f"{here}/checks/{i.lower()}.py"):
        checks.append(dict(
            property=i,
            quick_cmd=f"{PY} -m sx.main {i} --tier quick",
            thorough_cmd=f"{PY} -m sx.main {i} --tier thorough",
            evidence_file=f"evidence/{i}.json",
            technique="dynamic symbolic execution of the real code with z3 (all feasible paths within bounds), counterexamples replayed natively",
            level="model_checking",
            level_note="bounded: every feasible path of the stated harness shapes is decided by the solver; bounds and functions encoded are in the evidence; anything outside them is not covered",
        ))
    else:
        na.append(dict(property=i, reason="check not built yet (work in progress)"))
m = dict(version=1, setup_cmd=f"{PY} -m sx.selftest", checks=checks, not_applicable=na,
         notes="All checks share the engine in sx/; harnesses are in checks/. See DESIGN.md.")
json.dump(m, open(f"{here}/MANIFEST.json", "w"), indent=1)
