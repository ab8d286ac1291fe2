#!/usr/bin/env python3
"""write MANIFEST.json from properties.jsonl and the registered contracts"""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from vc import runner, registry as R
runner.load_all()
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
notes = json.load(open(os.path.join(ROOT, "tools", "levels.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    nc = [c for c in R.CONTRACTS if i in c.props]
    nb = [c for c in R.BOUNDED if i in c.props]
    n = notes.get(i, {})
    if n.get("na"):
        na.append(dict(property=i, reason=n["na"]))
        continue
    if not nc and not nb:
        na.append(dict(property=i, reason="no check built yet"))
        continue
    level = n.get("level", "proof" if nc else "other")
    tech = "contract-based deductive verification of the real functions: contracts executed symbolically over /repo's source for all sizes and values, obligations discharged by an algebraic normaliser and z3"
    if nb:
        tech += "; bounded concrete stand-ins (labelled bounded) for what is out of the verifier's reach" if nc else ""
    note = n.get("note", "")
    note += " Exact real/complex arithmetic in place of floating point; NumPy/LAPACK routines, the extraction and the verifier are trusted (evidence lists every assumption)."
    checks.append(dict(property=i, quick_cmd="./check %s quick" % i, thorough_cmd="./check %s thorough" % i, evidence_file="evidence/%s.json" % i, technique=tech, level=level, level_note=note.strip()))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na), open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
