#!/usr/bin/env python3
"""Writes MANIFEST.json from specs.py and properties.jsonl."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import specs
props = [json.loads(l) for l in open(ROOT + "/properties.jsonl")]
na = json.load(open(ROOT + "/tools/not_applicable.json"))
checks = []
for p in props:
    s = specs.SPECS.get(p["id"])
    if not s:
        na.setdefault(p["id"], "check not built yet")
        continue
    na.pop(p["id"], None)
    checks.append({"property": p["id"],
                   "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
                   "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"],
                   "technique": s["technique"], "level": s["level"], "level_note": s["note"]})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in sorted(na.items())],
     "notes": "No hooks in /repo: the harnesses drive the public interfaces. Every check compiles what it needs from /repo's working tree."}
json.dump(m, open(ROOT + "/MANIFEST.json", "w"), indent=1)
open(ROOT + "/MANIFEST.json", "a").write("\n")
