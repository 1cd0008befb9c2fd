#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
notes = json.load(open(root + "/tools/checks.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    n = notes.get(i)
    if not n or n.get("not_applicable"):
        na.append({"property": i, "reason": (n or {}).get("not_applicable", "no check built yet")})
        continue
    checks.append({"property": i, "quick_cmd": "bash check.sh %s quick" % i,
                   "thorough_cmd": "bash check.sh %s thorough" % i,
                   "evidence_file": "evidence/%s.json" % i,
                   "technique": n["technique"], "level": n.get("level", "exploration"), "level_note": n["note"]})
json.dump({"version": 1, "setup_cmd": "bash setup.sh",
           "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: everything observed is public. Commits in /repo are fixes (known_findings.txt)."},
          open(root + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(root + "/MANIFEST.json", "a").write("\n")
