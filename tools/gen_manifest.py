#!/usr/bin/env python3
"""Writes MANIFEST.json from groups.py and the notes below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from groups import GROUPS, NOTES
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
ready = [p for p in props if p in GROUPS and p in NOTES and
         all(f[0] == "@" or os.path.exists(V + "/harness/" + f) for f in GROUPS[p])]
NA = {}
m = {"version": 1, "setup_cmd": "true",
     "checks": [{"property": p, "quick_cmd": "python3 run.py %s quick" % p,
                 "thorough_cmd": "python3 run.py %s thorough" % p,
                 "evidence_file": "evidence/%s.json" % p,
                 "technique": NOTES[p][0], "level": "exploration", "level_note": NOTES[p][1]}
                for p in ready],
     "not_applicable": [{"property": p, "reason": NA.get(p, "check not built yet")}
                        for p in props if p not in ready],
     "notes": "Every check compiles /repo's current sources with AddressSanitizer into a scratch "
              "directory and runs generated cases against an independent model; see DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(ready), "claimed")
