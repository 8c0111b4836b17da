#!/usr/bin/env python3
"""MANIFEST.json from the harness modules that exist."""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
NA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(H, "harness/src/%s.rs" % i.lower())):
        checks.append(dict(
            property=i, quick_cmd="VERIF_TIER=quick python3 run.py %s" % i,
            thorough_cmd="VERIF_TIER=thorough python3 run.py %s" % i,
            technique="bounded symbolic execution of the real Rust code (Kani 0.68 / CBMC 6.11, SAT back end MiniSat) with symbolic inputs, unwinding assertions and native replay of counterexamples",
            level="other",
            level_note="holds for every value of the symbolic inputs within the bounds stated in evidence (coverage.bounds); nothing is claimed outside them"))
    else:
        na.append(dict(property=i, reason=NA.get(i, "harnesses not built yet")))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na), open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print([c["property"] for c in checks], [n["property"] for n in na])
