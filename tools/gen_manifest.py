"""Writes MANIFEST.json from properties.jsonl and the registry."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, V)
from sa.registry import REG, NOTES, NOT_APPLICABLE  # noqa: E402

props = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in REG:
        kinds = {u[0] for u in REG[i]}
        tech = []
        if "driver" in kinds:
            tech.append("path-sensitive abstract interpretation of the compiled source (typestate over a most general client, fixpoint over abstract states)")
        if "rule" in kinds:
            tech.append("rule over syntax tree and call graph")
        checks.append({
            "property": i,
            "quick_cmd": f"python3 -m sa.check {i} --tier quick",
            "thorough_cmd": f"python3 -m sa.check {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": "static analysis: " + "; ".join(tech),
            "level": "other",
            "level_note": NOTES.get(i, "Every abstract path of the library code under the drivers is followed to a fixpoint; "
                                       "drivers bound how many operations are in flight, not the length of histories "
                                       "(where a driver is bounded, DESIGN.md says so). The standard library is modelled, not analysed."),
        })
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "no check built yet")})
man = {"version": 1, "setup_cmd": "python3 -c 'import sa.check'", "checks": checks, "not_applicable": na}
with open(os.path.join(V, "MANIFEST.json"), "w") as fh:
    json.dump(man, fh, indent=1)
    fh.write("\n")
print(len(checks), "checks,", len(na), "not claimed")
