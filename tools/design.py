#!/usr/bin/env python3
"""Generate DESIGN.md from tools/DESIGN.in.md, the properties and the planted bugs."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from how import HOW
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
man = json.load(open(V + "/MANIFEST.json"))
claimed = {c["property"] if "property" in c else c.get("property_id") or c.get("id") for c in man["checks"]}
out = ["## How each property is decided", ""]
for l in open(V + "/properties.jsonl"):
    d = json.loads(l)
    if d["id"] in claimed:
        out.append(f"* **{d['id']}** {d['title']}. {HOW[d['id']]}")
props = "\n".join(out)
rows = ["Each was confirmed to build, pass the existing tests, and fail its demonstration. `caught` is the", "result of the quick check of its property, run by hand against the change.", "", "| change | property | needs | caught |", "|---|---|---|---|"]
res = {}
p = V + "/tools/plant/results.txt"
if os.path.exists(p):
    for l in open(p):
        a = l.split(None, 1)
        res[a[0]] = a[1].strip() if len(a) > 1 else ""
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{i}/meta.json"))
    rows.append(f"| {i} | {m['property']} | {m['needs']} | {res.get(i, '')} |")
s = open(V + "/tools/DESIGN.in.md").read().replace("@@PROPS@@", props).replace("@@PLANTED@@", "\n".join(rows))
open(V + "/DESIGN.md", "w").write(s)
