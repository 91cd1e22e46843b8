#!/usr/bin/env python3
"""addknown.py REPLAY ID WHAT: list a replay file's failure in known_findings.json (by hand, never by a check)."""
import json
import sys

r = json.load(open(sys.argv[1]))
k = json.load(open("known_findings.json"))
k["findings"] = [f for f in k["findings"] if f["id"] != sys.argv[2]]
k["findings"].append(dict(id=sys.argv[2], property=r["property"], check=r["check"], sig=r["sig"], case=r["case"], what=sys.argv[3]))
json.dump(k, open("known_findings.json", "w"), indent=1)
