#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and units/__init__.py"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, V)
from units import UNITS, NOTES, NA
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in UNITS:
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
            "technique": "deductive verification of the extracted functions against contracts (Verus/Z3), failing obligations replayed by a falsifier on the real crate", "level": "proof", "level_note": NOTES[i]})
    else:
        na.append({"property": i, "reason": NA.get(i, "no contract for it has been completed")})
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^Add cfg(granne_verif)"], stdout=subprocess.PIPE, text=True).stdout.split()
json.dump({"version": 1, "setup_cmd": "python3 check.py --build", "hooks": {"guard": "cfg granne_verif", "enable": "RUSTFLAGS='--cfg granne_verif'", "source_commits": hook}, "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
