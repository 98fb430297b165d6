#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import collections, glob, json, os, re
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/..")
d = collections.defaultdict(list)
for f in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(f))
    d[m["property"]].append("`%s` (%s)" % (f.split("/")[1], m["needs"]))
rows = "\n".join("| %s | %s |" % (k, "; ".join(d[k])) for k in sorted(d))
t = open("DESIGN.md").read()
a, b = "<!-- planted -->\n", "<!-- /planted -->"
i, j = t.index(a) + len(a), t.index(b)
open("DESIGN.md", "w").write(t[:i] + "| check | planted bugs it reports (what each needs) |\n|---|---|\n" + rows + "\n" + t[j:])
