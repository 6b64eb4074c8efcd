#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json (run after editing)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []
CHECKS = []

def prop(id, title, statement, over, qtext, why, files, mech, observe=None, hook=None, state=None,
         claim=None, na=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or []
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})
    if na:
        NA.append({"property": id, "reason": na})
    elif claim or id in C:
        claim = claim or (SIM, "exploration", C[id])
        CHECKS.append({"property": id, "quick_cmd": f"./check {id} quick",
                       "thorough_cmd": f"./check {id} thorough",
                       "technique": claim[0], "level": claim[1], "level_note": claim[2]})

exec(open(os.path.join(V, "tools", "props_data.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
ids = {p["id"] for p in P}
done = {c["property"] for c in CHECKS} | {n["property"] for n in NA}
for i in sorted(ids - done):
    NA.append({"property": i, "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "./setup",
     "hooks": {"guard": "cfg(verif_hooks)", "enable": "build.sh compiles with RUSTFLAGS='--cfg verif_hooks'", "source_commits": ["ecaa4bb6cded7980c79b1fee366fd28e15e63362"]},
     "checks": CHECKS, "not_applicable": NA,
     "notes": "Deterministic simulation with fault injection; see DESIGN.md. known-findings.txt lists findings and repairs."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties", len(CHECKS), "claimed", len(NA), "not applicable")
