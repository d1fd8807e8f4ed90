#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the property texts below.
usage: python3 tools/gen.py   (only ids present in sa/registry.py are claimed)"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa.registry import RULES
from tools.texts import PROPS, NA

RUN = "python3 check.py %s"
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS:
        if p["id"] not in RULES and p["id"] not in NA:
            continue
        rec = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(rec["title"]) <= 80, rec["title"]
        f.write(json.dumps(rec) + "\n")
checks = []
for p in PROPS:
    if p["id"] in RULES:
        checks.append({"property": p["id"], "quick_cmd": RUN % p["id"] + " --tier quick", "thorough_cmd": RUN % p["id"] + " --tier thorough",
                       "technique": p["technique"], "level": "other", "level_note": p["note"], "evidence_file": "evidence/%s.json" % p["id"]})
man = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks,
       "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())],
       "notes": "Static analysis only: a rustc_driver plugin (driver/driver.rs) dumps the built MIR, types, constants and ADT layouts of all workspace crates of /repo's current tree; Python rules decide the properties on those facts. Nothing of dnglab is executed. No hooks in /repo are needed."}
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
