#!/usr/bin/env python3
"""mkdetect.py RESULTS.jsonl: notes in tools/design/detections.json which check caught which planted bug (results of plant.py)."""
import glob
import json
import os
import re
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = os.path.join(V, "tools", "design", "detections.json")
D = json.load(open(out))
names = {os.path.basename(p) for p in glob.glob(os.path.join(V, "seeded", "*"))}
missed = set()
for l in open(sys.argv[1]):
    r = json.loads(l)
    n = r["name"]
    if r.get("check") == 0:
        missed.add(n)
    elif r.get("check") == 1 and r.get("found"):
        c = sorted({re.match(r"check (\w+):", x).group(1) for x in r["found"]})
        D[n] = dict(by=f"{r['prop']} {', '.join(c)}", note="missed at first, the check was strengthened" if n in missed else "")
D = {n: D[n] for n in sorted(D) if n in names}
json.dump(D, open(out, "w"), indent=1)
open(out, "a").write("\n")
print(len(D), "of", len(names), sorted(names - set(D)))
