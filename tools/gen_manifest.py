#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(root + "/properties.jsonl")]
HON = "exhaustive explicit-state execution of the constraint model recorded from the code, against an independent oracle"
ADV = "exhaustive explicit-state search over prover choices on the constraint model recorded from the code, replayed on gnark"
TRUST = "Trusts gnark's primitive semantics (validated by replaying traces on its real builders and solvers) and the harness's softfloat reference (validated against the CPU and math/big). "
N = {}
def c(id, tech, note, level="model_checking"):
    N[id] = (tech, level, note)
exec(open(root + "/tools/manifest_table.py").read())
checks, na = [], []
for i in ids:
    if i in N:
        t, l, n = N[i]
        checks.append(dict(property=i, quick_cmd=f"./check.sh {i} quick", thorough_cmd=f"./check.sh {i} thorough",
                           evidence_file=f"evidence/{i}.json", technique=t, level=l, level_note=n))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check under construction")))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="Everything is driven by check.sh; the constraint model is re-extracted from /repo on every run. No hooks in /repo.")
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
open(root + "/MANIFEST.json", "a").write("\n")
