#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/props_meta.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from props_meta import P, NA
LN = ("Every obligation generated by engine/vcx from the current source of the listed functions is discharged by an SMT solver for all "
      "inputs in the stated domain; trusts the clang front end, the generator, the solvers and the models named in the evidence file.")
with open(V + "/properties.jsonl", "w") as f:
    for p in P + NA:
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}
        f.write(json.dumps(d) + "\n")
m = {"version": 1, "setup_cmd": "bash engine/build.sh",
     "checks": [{"property": p["id"], "quick_cmd": f"python3 check.py {p['id']} --tier quick",
                 "thorough_cmd": f"python3 check.py {p['id']} --tier thorough",
                 "technique": p.get("technique", "function contracts on the real C++ (LLVM IR), verification conditions discharged by z3/cvc5"),
                 "level": p.get("level", "proof"), "level_note": p.get("note", "") + (" " if p.get("note") else "") + LN} for p in P],
     "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA]}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")

# DESIGN.md from its template
t = open(V + "/tools/design.tmpl.md").read()
props = "\n\n".join(f"**{p['id']} {p['title']}.** Domain: {p['quant']}. {p['how']} Beyond tests: {p['why']}" for p in P)
fixed = "\n".join("* " + x for x in json.load(open(V + "/known_findings.json"))["fixed"])
res = {}
if os.path.exists(V + "/tools/seeded.txt"):
    for l in open(V + "/tools/seeded.txt"):
        a, b = l.rstrip("\n").split(" ", 1)
        res[a] = b
rows = ["| planted bug | property | breaks | outcome |", "|---|---|---|---|"]
for d in sorted(os.listdir(V + "/seeded")):
    j = json.load(open(f"{V}/seeded/{d}/meta.json"))
    rows.append(f"| {d} | {j['property']} | {j['what_it_breaks']} | {res.get(d, 'not run yet')} |")
nas = "\n".join(f"* **{p['id']} {p['title']}**: {p['reason']}" for p in NA) or "(none)"
for k, v in (("PROPS", props), ("FIXED", fixed), ("SEEDED", "\n".join(rows)), ("NA", nas)):
    t = t.replace(f"@{k}@", v)
open(V + "/DESIGN.md", "w").write(t)
