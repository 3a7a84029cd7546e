#!/usr/bin/env python3-vt
"""DESIGN.md from design_head.md, the harness modules and seeded/."""
import ast
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(HERE)
HOW = json.load(open("tools/how.json"))
props = [json.loads(l) for l in open("properties.jsonl")]
man = json.load(open("MANIFEST.json"))
na = {x["property"]: x["reason"] for x in man["not_applicable"]}
out = [open("tools/design_head.md").read().rstrip() + "\n"]
for l in open("KNOWN_FINDINGS.txt"):
    if l.startswith(("fixed:", "known:")):
        out.append("* " + l.strip())
out.append("\n## Properties\n")


def consts(pid):
    p = "harness/%s.py" % pid.lower()
    got = {}
    if os.path.exists(p):
        for n in ast.parse(open(p).read()).body:
            if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("BOUNDS", "OUTSIDE", "ASSUMPTIONS"):
                try:
                    got[n.targets[0].id] = ast.literal_eval(n.value)
                except ValueError:
                    pass
    return got


for p in props:
    pid = p["id"]
    out.append("### %s %s\n" % (pid, p["title"]))
    out.append(p["statement"] + "\n")
    if pid in na:
        out.append("Not claimed: %s\n" % na[pid])
        continue
    c = consts(pid)
    out.append("* Decided by: %s" % HOW.get(pid, "see harness/%s.py" % pid.lower()))
    out.append("* Bounds: %s" % c.get("BOUNDS", ""))
    out.append("* Outside: %s" % c.get("OUTSIDE", ""))
    if c.get("ASSUMPTIONS"):
        out.append("* Assumptions: %s" % "; ".join(c["ASSUMPTIONS"]))
    out.append("* Why tests cannot settle it: %s\n" % p["why_tests_cant"])
out.append("## Planted bugs\n")
out.append("Written from the property text and the code; each compiles, passes the stable tests and has a demonstration (`tools/seed.sh ID`).\n")
out.append("| bug | property | needs | caught by |\n|---|---|---|---|")
res = {}
if os.path.exists("tools/seeded_results.txt"):
    for l in open("tools/seeded_results.txt"):
        k, _, v = l.strip().partition(" ")
        res[k] = v
for d in sorted(os.listdir("seeded")):
    m = json.load(open("seeded/%s/meta.json" % d))
    out.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"], res.get(d, "?")))
out.append("")
out.append(open("tools/design_tail.md").read())
open("DESIGN.md", "w").write("\n".join(out))
