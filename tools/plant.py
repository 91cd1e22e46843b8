#!/usr/bin/env python3
"""plant.py SPEC.py [--tests] [--check]: try a planted bug in a scratch copy of /repo that a private mount namespace
shows as /repo; writes seeded/<id>/ when the demonstration passes without and fails with the change.

SPEC.py defines PROP, EDITS = [(file, old, new)], NEEDS, BREAKS, DEMO (Python source)."""
import json
import os
import re
import runpy
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def ns(copy, cmd, vp=None, **kw):
    b = f"mount --bind {vp} /opt/vp && " if vp else ""
    return subprocess.run(["unshare", "-Urm", "bash", "-c", f"mount --bind {copy} /repo && {b}cd /repo && {cmd}"], text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def main():
    spec, args = sys.argv[1], sys.argv[2:]
    d = runpy.run_path(spec)
    name = os.path.basename(spec)[:-3]
    base = f"/tmp/bug/{name}"
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    copy = base + "/repo"
    subprocess.run(["cp", "-a", os.environ.get("SRC", "/repo"), copy], check=True)
    out = os.path.join(V, "seeded", name)
    os.makedirs(out, exist_ok=True)
    with open(out + "/demo.py", "w") as fh:
        fh.write(d["DEMO"].lstrip())
    with open(out + "/demo.sh", "w") as fh:
        fh.write('#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    res = dict(name=name, prop=d["PROP"])
    demo = f"timeout 280 bash {out}/demo.sh"
    a = ns(copy, demo)
    res["demo_clean"] = a.returncode
    for f, old, new in d["EDITS"]:
        p = os.path.join(copy, f)
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    patch = subprocess.run(["git", "-C", copy, "diff"], text=True, stdout=subprocess.PIPE, check=True).stdout
    with open(out + "/patch.diff", "w") as fh:
        fh.write(patch)
    with open(out + "/meta.json", "w") as fh:
        json.dump(dict(property=d["PROP"], needs=d["NEEDS"], what_it_breaks=d["BREAKS"]), fh, indent=1)
    if any(f.endswith(".pyx") for f, *_ in d["EDITS"]):
        print(ns(copy, "bash /opt/vp/build.sh --ext-only").stdout[-500:])
    b = ns(copy, demo)
    res["demo_patched"] = b.returncode
    if a.returncode:
        print("DEMO FAILS ON CLEAN TREE\n", a.stdout[-1500:])
    if not b.returncode:
        print("DEMO PASSES ON PATCHED TREE\n", b.stdout[-1500:])
    if "--check" in args:
        c = ns(copy, f"cd {V} && ./check {d['PROP']}", env=dict(os.environ, VP_OUT=base))
        res["check"] = c.returncode
        res["found"] = [x[:300] for x in re.findall(r"^check .*$", c.stdout, re.M)]
        if c.returncode not in (0, 1):
            print(c.stdout[-2000:])
    if "--tests" in args:
        vp = base + "/vp"
        shutil.copytree("/opt/vp", vp, symlinks=True)
        c = ns(copy, f"bash /opt/vp/test.sh {base}/out.json > {base}/test.log 2>&1", vp=vp)
        stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        o = json.load(open(base + "/out.json"))
        miss = sorted(set(stable) - set(o["passed"]))
        res["tests"] = len(miss)
        if miss:
            print("TESTS BROKEN:", miss[:5])
    with open("/tmp/bugs/results.jsonl", "a") as fh:
        fh.write(json.dumps(res) + "\n")
    print(json.dumps(res))
    if "--keep" not in args:
        shutil.rmtree(base)


main()
