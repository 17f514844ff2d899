#!/usr/bin/env python3
"""Fills the generated parts of DESIGN.md from properties.jsonl, specs.py and seeded/."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, ROOT)
import specs
t = open(ROOT + "/tools/DESIGN.in.md").read()
rows = []
for l in open(ROOT + "/properties.jsonl"):
    p = json.loads(l); s = specs.SPECS[p["id"]]
    rows.append("### %s %s\n\n*Method.* %s. %s\n\n*Bounds.* %s.\n\n*Oracle / assumptions.* %s.\n\n*Reaches beyond the tests.* %s\n" %
                (p["id"], p["title"], s["technique"][0].upper() + s["technique"][1:], s["note"], s["bounds"], "; ".join(s["assumptions"]), p["why_tests_cant"]))
caught = json.load(open(ROOT + "/tools/caught.json"))
seeds = ["| id | property | what it breaks | needs | caught |", "|---|---|---|---|---|"]
for i in sorted(os.listdir(ROOT + "/seeded")):
    m = json.load(open(ROOT + "/seeded/%s/meta.json" % i))
    seeds.append("| %s | %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"], m["needs"], caught.get(i, "?")))
open(ROOT + "/DESIGN.md", "w").write(t.replace("%TABLE%", "\n".join(rows)).replace("%SEEDS%", "\n".join(seeds)))
