#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl, the props modules present and NOT_APPLICABLE below."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
p = os.path.join(R, "tools", "not_applicable.json")
if os.path.exists(p):
    NA = json.load(open(p))
checks, na = [], []
for l in open(os.path.join(R, "properties.jsonl")):
    d = json.loads(l)
    i = d["id"]
    if i in NA:
        na.append(dict(property=i, reason=NA[i]))
    elif os.path.exists(os.path.join(R, "props", i + ".py")):
        checks.append(dict(property=i, quick_cmd="./check.sh %s quick" % i, thorough_cmd="./check.sh %s thorough" % i,
                           evidence_file="evidence/%s.json" % i,
                           technique="symbolic execution of the real Python/C++ code; z3 decides each negated assertion; counterexamples replayed",
                           level="model_checking",
                           level_note="bounded: all values of the symbolic inputs within the stated boxes/sizes, doubles modelled as reals; "
                                      "see the bounds and outside entries of the evidence file"))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
         notes="python /verif/tools/gen_manifest.py regenerates this file")
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
