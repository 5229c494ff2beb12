#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table of techniques below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = json.load(open(os.path.join(V, "tools", "techniques.json")))
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)["id"]
    if p not in T:
        na.append({"property": p, "reason": "check still being built"})
        continue
    c = {"property": p,
         "quick_cmd": "VERIF_TIER=quick python3 run.py --property %s" % p,
         "thorough_cmd": "VERIF_TIER=thorough python3 run.py --property %s" % p,
         "technique": T[p][0], "level": "exploration", "level_note": T[p][1]}
    checks.append(c)
m = {"version": 1, "setup_cmd": "python3-vt -c 'import hypothesis' && python3 tools/mkmanifest.py --check",
     "checks": checks, "not_applicable": na,
     "notes": "One runner (run.py) decides every property; VERIF_SEED seeds every random choice. Replay: run.py --property ID --replay FILE."}
text = json.dumps(m, indent=1) + "\n"
import sys
path = os.path.join(V, "MANIFEST.json")
if "--check" in sys.argv:
    assert open(path).read() == text, "MANIFEST.json is stale"
else:
    open(path, "w").write(text)
