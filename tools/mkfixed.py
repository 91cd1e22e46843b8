#!/usr/bin/env python3
"""Writes the list of repaired defects in known_findings.json from the fix: commits of /repo (argument: the repository)."""
import json
import os
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = sys.argv[1] if len(sys.argv) > 1 else "/repo"
# property of the n-th fix
PROP = {}
for pid, ns in {
    "P01": "1 2 3", "P03": "14 15 16", "P04": "4", "P06": "5 94", "P08": "6 7", "P10": "9 10", "P11": "11", "P12": "8", "P13": "12", "P15": "13",
    "P16": "17", "P17": "18 20 21 24", "P18": "25", "P19": "19 22 26 27 28 29", "P20": "23 30 31 107", "P21": "113", "P22": "32 90", "P23": "33",
    "P24": "34 92", "P25": "35 36 37", "P26": "38 39", "P27": "40 41 42", "P28": "43 44 45 46", "P29": "62 63 64 65 66 67 68 69 70", "P30": "51 52",
    "P31": "47 48 49 50", "P32": "53 54 55 56 57 59 60 61", "P33": "71 72 73 74 75 76 77", "P34": "78 79 80 81 82 83 84 85 86 87 88 89 91", "P35": "58",
    "P36": "93 95", "P37": "96 97 98 99 100 101 114", "P38": "102 103 104 105 106", "P39": "108 109 110 111", "P41": "112"}.items():
    for n in ns.split():
        PROP[int(n)] = pid
EXTRA = json.load(open(os.path.join(V, "tools", "fixed_extra.json"))) if os.path.exists(os.path.join(V, "tools", "fixed_extra.json")) else {}
log = subprocess.run(["git", "-C", REPO, "log", "--reverse", "--format=%h %s"], text=True, stdout=subprocess.PIPE, check=True).stdout.splitlines()
fixes = [l for l in log if l.split(" ", 1)[1].startswith("fix: ")]
# commits of upstream may be called the same: ours are those after the pinned commit
base = next(i for i, l in enumerate(log) if l.startswith("2b312e7"))
fixes = [l for l in log[base + 1:] if l.split(" ", 1)[1].startswith("fix: ")]
out = []
for n, l in enumerate(fixes, 1):
    h, s = l.split(" ", 1)
    s = s[5:]
    pid = EXTRA.get(s.split(" [P")[0]) or PROP.get(n) or (s[s.rindex("[") + 1:-1] if s.endswith("]") else None)
    assert pid, l
    out.append(f"fixed: property={pid} {h} {s.split(' [P')[0]}")
p = os.path.join(V, "known_findings.json")
d = json.load(open(p))
d["fixed"] = out
json.dump(d, open(p, "w"), indent=1)
open(p, "a").write("\n")
print(len(out))
