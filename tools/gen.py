#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
sys.dont_write_bytecode = True
from props import PROPS
root = os.path.dirname(here)
with open(root + "/properties.jsonl", "w") as f:
    for p in PROPS:
        q = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p.get("over", ["inputs"]), "text": p["for"]},
             "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(q, ensure_ascii=False) + "\n")
man = {"version": 1, "setup_cmd": "./check.sh setup",
       "checks": [{"property": p["id"], "quick_cmd": "./check.sh " + p["id"], "thorough_cmd": "./check.sh " + p["id"] + " thorough",
                   "technique": p["tech"], "level": "exploration", "level_note": p["note"]}
                  for p in PROPS if "na" not in p],
       "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in PROPS if "na" in p]}
json.dump(man, open(root + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(root + "/MANIFEST.json", "a").write("\n")
