"""Writes MANIFEST.json from the registered checks (run by hand after adding a check)."""
import json
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
from pv import checks  # noqa
from pv.chk import PROPS, TECH

NA = {
    "C40": "floating-point accuracy of the recurrence: rounding errors over data-dependent iterations have no sound static bound in reach",
    "C41": "a convergence rate governed by best polynomial approximation on the spectrum: a statement of analysis, not of the program text; C22 decides the formula evaluated",
    "C42": "a probability over the sampling distribution; C07/C17 decide what the code computes, not its coverage",
    "C43": "almost-sure termination depends on the distribution of random draws, no ranking function exists",
    "C44": "floating-point convergence of an iteration; C25 decides each sweep exactly",
    "C45": "floating-point error bound for arbitrary data streams; C01 decides the algebra",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl")) if l.strip()]
checks_ = []
for p in ids:
    if p in PROPS:
        f, rule, level = PROPS[p]
        checks_.append({"property": p, "quick_cmd": f"python3 run.py {p} --tier quick", "thorough_cmd": f"python3 run.py {p} --tier thorough",
                        "technique": TECH.get(p, "abstract interpretation to gated value graphs; equality of normal forms"), "level": level, "level_note": rule[:900]})
na = [{"property": p, "reason": NA.get(p, "no check built yet")} for p in ids if p not in PROPS]
json.dump({"version": 1, "setup_cmd": "python3 -c \"import ast, json, sys; assert sys.version_info >= (3, 10)\"", "checks": checks_, "not_applicable": na},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks_), "checks,", len(na), "not applicable")
