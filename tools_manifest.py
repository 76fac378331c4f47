#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
T = {}
def t(ids, technique, level, note):
    for i in ids.split():
        T[i] = (technique, level, note)
exec(open(os.path.join(here, "manifest_table.py")).read())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in T:
        technique, level, note = T[i]
        checks.append({"property": i, "quick_cmd": "./run.sh " + i, "thorough_cmd": "env VERIF_TIER=thorough ./run.sh " + i,
                       "evidence_file": "evidence/%s.json" % i, "technique": technique, "level": level, "level_note": note})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": {"guard": "vt6_mc", "enable": "RUSTFLAGS=\"--cfg vt6_mc\" (only the h-mc crate; it also replaces the tokio crate by a controlled one through [patch.crates-io])",
               "source_commits": ["1767355", "8ae6b48"]},
     "checks": checks, "not_applicable": na,
     "notes": "run.sh <ID> [--replay FILE]; VERIF_TIER=quick|thorough selects the bounds."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
