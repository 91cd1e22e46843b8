#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the definitions in tools/defs/*.py (one dict per property)."""
import glob
import json
import os
import runpy

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props, checks = [], []
for f in sorted(glob.glob(os.path.join(V, "tools", "defs", "*.py"))):
    for d in runpy.run_path(f)["D"]:
        props.append(d)
props.sort(key=lambda d: d["id"])
assert len({d["id"] for d in props}) == len(props)
with open(os.path.join(V, "properties.jsonl"), "w") as fh:
    for d in props:
        assert len(d["title"]) <= 80, (d["id"], len(d["title"]))
        q = dict(id=d["id"], title=d["title"], statement=d["statement"],
                 quantifier=dict(over=d["over"], text=d["q"]), why_tests_cant=d["why"],
                 anchors=dict(files=d["files"], mechanism=[dict(name=n, where=w) for n, w in d["mech"]]))
        fh.write(json.dumps(q) + "\n")
        if os.path.exists(os.path.join(V, "props", d["id"] + ".py")):
            checks.append(dict(property=d["id"], quick_cmd=f"./check {d['id']} --tier quick",
                               thorough_cmd=f"./check {d['id']} --tier thorough", technique=d["tech"], level="exploration",
                               level_note=d["note"]))
NA = []
m = dict(version=1, setup_cmd="bash ./setup.sh", checks=checks, not_applicable=NA,
         notes="Every check imports pymoo from /repo's working tree and rebuilds its compiled extensions first. No hooks in /repo.")
with open(os.path.join(V, "MANIFEST.json"), "w") as fh:
    json.dump(m, fh, indent=1)
    fh.write("\n")
print(len(props), "properties,", len(checks), "checks")
