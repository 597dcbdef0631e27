#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import checks
OPS = "generated vectors (choice mix of boundary/special/random lanes, garbage beyond partial vectors), every lane type x lane count x target against a scalar reference model; failures shrunk"
NOTES = {}
try:
    import contrib_checks
    NOTES.update(contrib_checks.TECH)
    HAVE = list(checks.OPFAM) + sorted(contrib_checks.CONTRIB)
except ImportError:
    HAVE = list(checks.OPFAM)
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
out = dict(version=1, setup_cmd="python3 run.py --setup", checks=[], not_applicable=[])
for p in props:
    i = p["id"]
    if i not in HAVE:
        out['not_applicable'].append(dict(property=i, reason='check not built yet'))
        continue
    tech, note = NOTES.get(i, ("property-based testing: " + OPS,
      "Random exploration: every (op, lane type, power-of-two lane count, target incl. EMU128/SCALAR, immediate) is driven with generated inputs; not exhaustive over values."))
    out["checks"].append(dict(property=i, quick_cmd="python3 run.py %s --tier quick" % i,
        thorough_cmd="python3 run.py %s --tier thorough" % i, evidence_file="evidence/%s.json" % i,
        technique=tech, level="exploration", level_note=note))
json.dump(out, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(out["checks"]), "checks")
