#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, programs.txt and the notes below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl") if l.strip()]
have = {l.split()[0] for l in open(V + "/tools/programs.txt") if l.strip() and not l.startswith("#")}
ENUM = "bounded exhaustive enumeration of inputs on the real code against an independent reference"
NOTE = json.load(open(V + "/tools/notes.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in have:
        na.append({"property": i, "reason": NOTE.get(i, {}).get("na", "no check built yet")})
        continue
    n = NOTE.get(i, {})
    checks.append({
        "property": i,
        "quick_cmd": "./check.sh " + i,
        "thorough_cmd": "./check.sh %s --tier thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": n.get("technique", ENUM),
        "level": n.get("level", "exploration"),
        "level_note": n.get("note", "Holds on every case of the enumerated space; see DESIGN.md."),
    })
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "Every check builds its programs from /repo's working tree with a go build overlay; /repo carries no hooks."},
          open(V + "/MANIFEST.json", "w"), indent=1)
