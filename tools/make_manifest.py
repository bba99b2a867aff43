"""Writes MANIFEST.json: one check per property that has contracts."""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
NA = {
    "C30": "an ensemble statement about random maps (averages over seeds, estimator variance): no contract over one call expresses it, "
           "and its deterministic ingredients are decided by C01, C04, C05 and C07",
    "C31": "decided inside healpy's compiled code (query_strip and the pixel interpolation of rotate_map_pixel); glass only multiplies "
           "the results, so a contract would assume the whole property",
    "C32": "floating-point rounding: the verifier reasons over exact reals, no back end here decides IEEE error bounds of array code",
}
NOTE = {}
checks, na = [], []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)["id"]
    f = os.path.join(ROOT, "contracts", p.lower() + ".py")
    if p in NA or not os.path.exists(f):
        na.append({"property": p, "reason": NA.get(p, "contracts not built yet")})
        continue
    m = importlib.import_module("contracts." + p.lower())
    note = getattr(m, "LEVEL_NOTE", None) or "All contract obligations are discharged for all inputs (array sizes and values symbolic)."
    checks.append({
        "property": p,
        "quick_cmd": f"python3-vt check.py {p} --tier quick",
        "thorough_cmd": f"python3-vt check.py {p} --tier thorough",
        "technique": "contract-based deductive verification of the real source (symbolic execution, loop invariants, z3/cvc5), with "
                     "replay on the real code",
        "level": getattr(m, "LEVEL", "proof"),
        "level_note": " ".join((note + " Assumes real arithmetic instead of floats and the stated contracts of numpy/jax/HEALPix/"
                                "random generators; a seeded bounded run of the real code checks the same clauses.").split()),
    })
json.dump({"version": 1, "setup_cmd": "python3-vt -c \"import z3\"",
           "checks": checks, "not_applicable": na}, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
