#!/usr/bin/env python3
"""Writes /verif/DESIGN.md."""
import json, os, glob
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
ns = {}
exec(open(os.path.join(here, "design.json.py")).read(), ns)
D = ns["D"]
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
out = [open(os.path.join(here, "design.head.md")).read(), "## The properties\n\n"]
for p in props:
    o, b, w = D[p["id"]]
    out.append("### %s %s\n\n*Oracle.* %s\n\n*Bounds, cost (quick).* %s\n\n*Beyond the tests.* %s\n\n" % (p["id"], p["title"], o, b, w))
out.append(open(os.path.join(here, "design.tail.md")).read())
res = {}
f = os.path.join(here, "seed-results.txt")
if os.path.exists(f):
    for l in open(f):
        w = l.split()
        if len(w) >= 3:
            res.setdefault(w[0], {})[w[1]] = w[2]
out.append("## Planted bugs\n\nEach is in `seeded/<id>/` with a demonstration. \"caught\" lists checks that reported a VIOLATION with it, \"quiet\" checks that were also run and rightly or wrongly stayed quiet.\n\n| bug | needs | breaks | caught by |\n|---|---|---|---|\n")
for d in sorted(glob.glob(os.path.join(root, "seeded", "*", "meta.json"))):
    id = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    r = res.get(id, {})
    c = ", ".join(sorted(k for k, v in r.items() if v == "CAUGHT")) or "-"
    q = ", ".join(sorted(k for k, v in r.items() if v != "CAUGHT"))
    e = lambda s: s.replace("|", "\\|").replace("\n", " ")
    out.append("| %s | %s | %s | %s%s |\n" % (id, e(m["needs"]), e(m["what_it_breaks"]), c, " (quiet: %s)" % q if q else ""))
open(os.path.join(root, "DESIGN.md"), "w").write("".join(out))
