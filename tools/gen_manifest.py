#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "analysis"))
from manifest_data import CHECKS, NOT_APPLICABLE, DEFAULT_NOTE
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        tech, note = CHECKS[i]
        checks.append(dict(property=i, quick_cmd=f"python3 /verif/analysis/run.py {i} --tier quick",
                           thorough_cmd=f"python3 /verif/analysis/run.py {i} --tier thorough",
                           evidence_file=f"/verif/evidence/{i}.json", technique=tech, level="other", level_note=note + " " + DEFAULT_NOTE))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "check not built yet")))
m = dict(version=1, setup_cmd="python3 /verif/analysis/setup.py", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
