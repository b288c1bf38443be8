#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property with a module in symex/props,
everything else is listed as not applicable."""
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python /verif/symex/run.py"

NA = {
    'C27': "a statement about floating-point error of the whole pipeline "
           "(LAPACK SVD, Gauss rules of high order, transcendental kernels): "
           "neither the library SVD nor its rounding can be encoded for a "
           "solver, and in the real-arithmetic model used here it is vacuous",
}
LEVEL_NOTE = (
    "symbolic execution of the package's Python source over real arithmetic "
    "with an array model in place of NumPy; every path within the bounds "
    "listed per harness in the evidence is executed and every assertion on "
    "it decided by normal forms or z3 for all values of the symbolic inputs; "
    "rounding is outside the model; counterexamples are reported only after "
    "they reproduce on the real package with the real NumPy")

checks, na = [], []
for line in open(os.path.join(ROOT, 'properties.jsonl')):
    pid = json.loads(line)['id']
    if os.path.exists(os.path.join(ROOT, 'symex/props/%s.py' % pid.lower())):
        checks.append(dict(
            property=pid,
            quick_cmd="%s %s --tier quick" % (PY, pid),
            thorough_cmd="%s %s --tier thorough" % (PY, pid),
            evidence_file="/verif/evidence/%s.json" % pid,
            technique="symbolic execution of the real Python source with an "
                      "SMT solver (z3) deciding every path's assertions",
            level="model_checking",
            level_note=LEVEL_NOTE))
    else:
        na.append(dict(property=pid,
                       reason=NA.get(pid, "no check built yet")))
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(dict(version=1, setup_cmd="/opt/venv/bin/python /verif/tools/"
                   "selftest.py", checks=checks, not_applicable=na), f,
              indent=1)
    f.write('\n')
print(len(checks), 'checks,', len(na), 'not applicable')
