#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks present in tool/checks."""
import ast, json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
TECH = "explicit enumeration of bounded command-line sequences, each model prediction replayed on the compiled tree"
LEVEL = "model_checking"
checks, na = [], []
reasons = {}
p = os.path.join(V, "not_applicable.json")
if os.path.exists(p):
    reasons = json.load(open(p))
for q in props:
    f = os.path.join(V, "tool", "checks", q["id"].lower() + ".py")
    if not os.path.exists(f):
        na.append(dict(property=q["id"], reason=reasons.get(q["id"], "no check built yet")))
        continue
    c = dict(TECHNIQUE=TECH, LEVEL=LEVEL, NOTE=None)
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in c:
            c[n.targets[0].id] = ast.literal_eval(n.value)
    assert c["NOTE"], f
    checks.append(dict(property=q["id"], quick_cmd="python3 run.py check " + q["id"],
                       thorough_cmd="VERIF_TIER=thorough python3 run.py check " + q["id"],
                       evidence_file="evidence/%s.json" % q["id"],
                       technique=c["TECHNIQUE"], level=c["LEVEL"], level_note=c["NOTE"]))
m = dict(version=1, setup_cmd="python3 run.py setup", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
