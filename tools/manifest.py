#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the plan of check.py"""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT + "/pylib")
import check
NOTES = json.load(open(ROOT + "/tools/notes.json"))
props = [json.loads(x) for x in open(ROOT + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in check.PLAN:
        checks.append({"property": i,
            "quick_cmd": "python3 pylib/check.py %s quick" % i,
            "thorough_cmd": "python3 pylib/check.py %s thorough" % i,
            "technique": NOTES.get(i, NOTES["*"])["technique"],
            "level": "model_checking",
            "level_note": NOTES.get(i, NOTES["*"])["note"]})
    else:
        na.append({"property": i, "reason": "no check registered yet"})
json.dump({"version": 1, "setup_cmd": "python3 pylib/build.py", "checks": checks, "not_applicable": na},
          open(ROOT + "/MANIFEST.json", "w"), indent=1)
