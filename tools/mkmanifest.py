#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
T = {}
def t(i, technique, note, level="exploration"):
    T[i] = (technique, note, level)
exec(open(os.path.join(here, "tools", "techniques.py")).read())
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in T:
        na.append({"property": i, "reason": "no check yet"})
        continue
    tech, note, level = T[i]
    checks.append({"property": i, "quick_cmd": "VERIF_TIER=quick bash run.sh check " + i,
                   "thorough_cmd": "VERIF_TIER=thorough bash run.sh check " + i,
                   "evidence_file": "evidence/%s.json" % i,
                   "technique": tech, "level": level, "level_note": note})
m = {"version": 1, "setup_cmd": "bash run.sh setup", "checks": checks, "not_applicable": na,
     "notes": "Every check builds the harness (and the command or wasm module where needed) from /repo's working tree into a scratch directory. Replay a reported case with: bash run.sh replay FILE. No hooks in /repo."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
