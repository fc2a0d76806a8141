"""Writes properties.jsonl and MANIFEST.json from props.py and checks.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import ALL
import checks
root = os.path.dirname(here)
ids = [p["id"] for p in ALL]
assert len(set(ids)) == len(ids)
for p in ALL:
    assert len(p["title"]) <= 80, p["id"]
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in ALL:
        f.write(json.dumps(p) + "\n")
man = dict(version=1, setup_cmd="/opt/venv/bin/python -c 'import numpy, numba, scipy, yaml'", checks=[], not_applicable=[],
           notes=checks.NOTES)
for i in ids:
    if i in checks.CHECKS:
        tech, level, note = checks.CHECKS[i]
        man["checks"].append(dict(property=i, quick_cmd=f"./check {i}", thorough_cmd=f"./check {i} --tier thorough",
                                  evidence_file=f"evidence/{i}.json", technique=tech, level=level, level_note=note))
    else:
        man["not_applicable"].append(dict(property=i, reason=checks.NOT_APPLICABLE.get(i, "check not built yet")))
json.dump(man, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(man["checks"]), "claimed", len(man["not_applicable"]), "not")
