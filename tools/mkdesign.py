#!/usr/bin/env python3
"""Rewrites the generated part of DESIGN.md (what follows the marker line)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "<!-- below: written by tools/mkdesign.py -->\n"
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
o = ["## Property by property\n",
     "Bounds are quick / thorough; for schedules the number is that of deviations from the default "
     "schedule, for enumerations the size level of the job (its meaning is the sentence before). "
     "Costs are wall-clock seconds of the quick check on 8 cores.\n"]
cost = json.load(open(os.path.join(V, "tools", "costs.json")))
for p in props:
    c = checks.CHECKS[p["id"]]
    o.append("### %s – %s\n" % (p["id"], p["title"]))
    o.append("*Decided by* %s. *Level* `%s`. Quick cost ≈ %s s.\n" % (c["technique"], c.get("level", "model_checking"), cost.get(p["id"], "?")))
    o.append(c["note"] + "\n")
    js = []
    for it in c["items"]:
        if it[0] == "conc": js.append("`%s` %d/%d deviations" % it[1:4])
        elif it[0] == "race": js.append("`%s` %d/%d under the race detector" % it[1:4])
        else: js.append("`%s` %d/%d" % it[1:4])
    o.append("*Jobs:* " + ", ".join(js) + ".\n")
    o.append("*Beyond the tests:* " + p["why_tests_cant"] + "\n")
    if c.get("assumptions"):
        o.append("*Assumes:* " + "; ".join(c["assumptions"]) + ".\n")
sd = os.path.join(V, "seeded")
o.append("## Planted bugs\n")
o.append("Each breaks one property, compiles, passes the existing tests and has a demonstration; "
         "all are reported by the quick check of their property unless noted.\n")
o.append("| id | property | what it breaks | needs | caught |\n|---|---|---|---|---|")
miss = {}
f = os.path.join(V, "tools", "seed_misses.json")
if os.path.exists(f): miss = json.load(open(f))
for d in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, d, "meta.json")))
    o.append("| %s | %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"], m["needs"], miss.get(d, "yes")))
o.append("")
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
s = s.split(MARK)[0] + MARK + "\n" + "\n".join(o)
open(p, "w").write(s)
