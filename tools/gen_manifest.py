"""Writes MANIFEST.json from properties.jsonl and the registered harnesses."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import run
run.load_checks()
from engine import registry
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
have = {c["prop"] for c in registry.CASES}
NA = json.load(open(os.path.join(HERE, "tools", "not_applicable.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        checks.append(dict(
            property=i,
            quick_cmd="python3-vt run.py %s --tier quick" % i,
            thorough_cmd="python3-vt run.py %s --tier thorough" % i,
            evidence_file="evidence/%s.json" % i,
            technique="symbolic execution of the real code (z3), path-exhaustive within stated bounds",
            level="model_checking",
            level_note="Every path of the real functions, within the sizes listed as bounds in the evidence, is "
                       "executed with symbolic inputs and each assertion is decided by z3 over all input values; "
                       "floats are modelled as reals, Python 2 sources run under Python 3 semantics, and numpy/"
                       "scipy/h5py through the stand-ins of engine/. Counterexamples are replayed on the real "
                       "code before they are reported."))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check built yet")))
m = dict(version=1, setup_cmd="python3-vt -c 'import z3, numpy, scipy, lib2to3.refactor'", checks=checks,
         not_applicable=na, notes="See DESIGN.md.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
