"""Writes MANIFEST.json: one check per checks/cNN.py, every other property under not_applicable."""
import json
import os

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    "C27": "A statistical limit over the number of agents has no finite symbolic assertion; the equalities it rests on "
           "(same flow utility, same law of motion, same probabilities) are decided for all inputs by C14-C18.",
}
NOTE = ("For every real input within the stated bounds (sizes, ranges; see evidence.coverage.bounds) over exact real "
        "arithmetic: each obligation is decided by canonical-form identity or by z3; counterexamples are replayed on the real "
        "code. Trusts the jaxpr/NumPy interpreter (compared with the real code on every run) and z3; exp/log/pow "
        "are uninterpreted apart from algebraic laws; float rounding and sizes beyond the bounds are outside.")
checks, na = [], []
for line in open(os.path.join(root, "properties.jsonl")):
    p = json.loads(line)["id"]
    if os.path.exists(os.path.join(root, "checks", p.lower() + ".py")):
        checks.append({
            "property": p, "quick_cmd": "bash check.sh %s quick" % p, "thorough_cmd": "bash check.sh %s thorough" % p,
            "technique": "symbolic execution of the real code (jaxpr / NumPy on symbolic values) with z3 deciding the assertions",
            "level": "other", "level_note": NOTE})
    else:
        na.append({"property": p, "reason": NA.get(p, "No check built yet.")})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na},
          open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
