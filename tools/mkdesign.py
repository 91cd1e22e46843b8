#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design/*.md, tools/defs/*.py, the docstrings of the checks, known_findings.json and seeded/*/meta.json."""
import ast
import glob
import json
import os
import re
import runpy

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def read(*p):
    return open(os.path.join(V, *p)).read()


def constants(node):
    try:
        return eval(ast.unparse(node), {})
    except Exception:
        return None


def checks(pid):
    t = ast.parse(read("props", pid + ".py"))
    rule = assumptions = None
    for n in ast.walk(t):
        if isinstance(n, ast.Call) and getattr(n.func, "id", "") == "Prop":
            kw = {k.arg: k.value for k in n.keywords}
            args = n.args
            rule = constants(kw["rule"] if "rule" in kw else args[1]) if len(args) > 1 or "rule" in kw else None
            a = kw.get("assumptions") or (args[2] if len(args) > 2 else None)
            assumptions = constants(a) if a is not None else None
    out = []
    for n in t.body:
        if isinstance(n, ast.FunctionDef):
            for d in n.decorator_list:
                if isinstance(d, ast.Call) and getattr(d.func, "attr", "") == "check":
                    kw = {k.arg: constants(k.value) for k in d.keywords}
                    out.append((n.name, (ast.get_docstring(n) or "").split("\n")[0], kw.get("quick", 200), kw.get("thorough", 5000)))
    return rule, assumptions, out


boost = eval(re.search(r"BOOST = (dict\(.*?\))\n", read("vp", "run.py"), re.S).group(1))
scale = int(re.search(r"THOROUGH_SCALE = (\d+)", read("vp", "run.py")).group(1))
D = sorted((d for f in glob.glob(os.path.join(V, "tools", "defs", "*.py")) for d in runpy.run_path(f)["D"]), key=lambda d: d["id"])
L = [read("tools", "design", "head.md"), "## The properties\n",
     "For each property: what decides it, what is generated and against what, the number of generated cases per tier in parentheses (quick, thorough), "
     "what counts as non-trivial, what is assumed, and why the tests do not settle it.\n"]
for d in D:
    rule, assume, cs = checks(d["id"])
    L.append(f"### {d['id']} {d['title']}\n")
    L.append(d["statement"] + "\n")
    L.append(f"*Decided by* {d['tech']}. *Over* {d['q']}. *Beyond the tests:* {d['why']}\n")
    for n, doc, q, th in cs:
        L.append(f"* `{n}` ({q * boost.get(d['id'], 1)}, {th * scale}): {doc}")
    L.append(f"\n*Non-trivial:* {rule}. *Bounds:* {d['note']}." + (f" *Assumed:* {'; '.join(assume)}." if assume else "") + "\n")
L.append(read("tools", "design", "alarms.md"))
K = json.load(open(os.path.join(V, "known_findings.json")))
L.append("## Known findings (genuine defects that are recorded, not repaired)\n")
L.append("A repair would change trajectories that the repository's own golden tests store (which may not be edited), or needs a decision of the maintainers. "
         "The checks print them as KNOWN-FINDING; any other failure of the same property is a violation.\n")
for k in K["findings"]:
    L.append(f"* **{k['id']}** ({k['property']}, check `{k['check']}`): {k['what']}")
L.append("\n## Genuine defects repaired in /repo\n")
L.append(f"{len(K['fixed'])} commits `fix: …`, each minimal; golden baselines and the stable tests are unchanged. By property:\n")
by = {}
for f in K["fixed"]:
    m = re.match(r"fixed: property=(P\d+) (\w+) (.*)", f)
    by.setdefault(m.group(1), []).append((m.group(2), m.group(3)))
for p in sorted(by):
    L.append(f"* **{p}** " + "; ".join(f"{w} (`{h}`)" for h, w in by[p]))
L.append("")
L.append(read("tools", "design", "other.md"))
L.append("## Planted bugs and what catches them\n")
S = json.load(open(os.path.join(V, "tools", "design", "detections.json")))
L.append("| bug | property | caught by | needs | note |\n|---|---|---|---|---|")
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    i = os.path.basename(os.path.dirname(f))
    m = json.load(open(f))
    s = S.get(i, {})
    L.append(f"| {i} | {m['property']} | {s.get('by', 'not run yet')} | {m['needs']} | {s.get('note', '')} |")
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(L) + "\n")
print(len(D), "properties written to DESIGN.md")
