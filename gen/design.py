#!/usr/bin/env python3
"""Writes DESIGN.md."""
import json, os, sys, textwrap
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS
from gaps import GAPS
root = os.path.dirname(here)
evdir = sys.argv[1] if len(sys.argv) > 1 else os.path.join(root, "evidence")
out = [open(os.path.join(here, "design_head.md")).read()]
seeds = {}
sd = os.path.join(root, "seeded")
for n in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, n, "meta.json")))
    seeds.setdefault(m["property"], []).append((n, m))
for p in sorted(PROPS, key=lambda p: int(p["id"][1:])):
    i = p["id"]
    out.append("\n### %s — %s\n\n%s\n" % (i, p["title"], p["statement"]))
    if "na" in p:
        out.append("\nNot applicable: %s\n" % p["na"])
        continue
    out.append("\nDecided by: %s, on %s.\n\n" % (p["technique"], "; ".join("%s (`%s`)" % (n, w) for n, w in p["mech"])))
    try:
        ev = json.load(open(os.path.join(evdir, i + ".json")))
        cov = ev["coverage"]
        for r in cov["rules"]:
            k, _, t = r.partition(": ")
            out.append("* **%s**: %s\n" % (k, t))
        out.append("\nExtent on the current tree: %d obligations, %d instances, %d control-flow paths.\n" % (cov["obligations"], cov["instances_examined"], cov["control_flow_paths"]))
    except FileNotFoundError:
        sys.exit("no evidence for " + i)
    out.append("\nQuantifies over %s. %s\n" % (p["quant"], p["tests"]))
    if i in GAPS:
        out.append("\nNot covered: %s\n" % GAPS[i])
    if i in seeds:
        out.append("\nPlanted bugs: %s.\n" % "; ".join("`%s` (%s)" % (n, m["what_it_breaks"]) for n, m in seeds[i]))
out.append("\n## Planted bugs and the checks which catch them\n\n| bug | caught by | needs | breaks |\n|---|---|---|---|\n")
for i in sorted(seeds, key=lambda i: int(i[1:])):
    for n, m in seeds[i]:
        out.append("| %s | %s | %s | %s |\n" % (n, m.get("caught_by", i), m["needs"], m["what_it_breaks"]))
tail = os.path.join(here, "design_tail.md")
if os.path.exists(tail):
    out.append("\n" + open(tail).read())
open(os.path.join(root, "DESIGN.md"), "w").write("".join(out))
