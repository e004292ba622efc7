#!/usr/bin/env python3
"""Writes MANIFEST.json from config.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from config import PROPS, TECH, NOTES, SKIP
ids = [json.loads(l)["id"] for l in open(f"{H}/properties.jsonl")]
checks, na = [], []
for i in ids:
    if i in PROPS:
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"VERIF_TIER=thorough python3 check.py {i}",
                           technique=TECH[i], level="exploration", level_note=NOTES[i]))
    else:
        na.append(dict(property=i, reason=SKIP.get(i, "No check has been built yet.")))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
         notes="Every check builds what it runs from /repo's working tree in a scratch directory under /verif/.build, which it removes. "
               "No hooks in /repo are needed: the monitors use the library's public interfaces and the sanitizers.")
json.dump(m, open(f"{H}/MANIFEST.json", "w"), indent=1)
open(f"{H}/MANIFEST.json", "a").write("\n")
