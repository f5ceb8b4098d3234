#!/usr/bin/env python3
"""Rewrites the seeded-change table of DESIGN.md from seeded/*/meta.json and a results file
("<seed> <property> rc=<n> ..." per line) given as argument."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for ln in open(sys.argv[1]):
    f = ln.split(None, 3)
    if len(f) >= 3 and f[2].startswith("rc="):
        res[f[0]] = f[2][3:]
rows = ["| change | property | needs | result of that property's quick check |", "|---|---|---|---|"]
for s in sorted(os.listdir(R + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (R, s)))
    rc = res.get(s)
    rows.append("| %s | %s | %s | %s |" % (s, m["property"], m["needs"], {"1": "caught", "0": "missed"}.get(rc, "not run")))
p = R + "/DESIGN.md"
t = open(p).read()
a, b = "<!-- seeds -->", "<!-- /seeds -->"
t = t.replace("SEEDTABLE", a + "\n" + b)
i, j = t.index(a), t.index(b)
open(p, "w").write(t[:i] + a + "\n" + "\n".join(rows) + "\n" + t[j:])
