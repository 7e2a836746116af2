#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import json, os, re
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
by = {}
for i in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    m = json.load(open(os.path.join(ROOT, "seeded", i, "meta.json")))
    by.setdefault(m["property"], []).append("`%s`" % i)
t = "| check | planted changes it catches |\n|---|---|\n" + "".join("| %s | %s |\n" % (p, ", ".join(v)) for p, v in sorted(by.items()))
p = os.path.join(ROOT, "DESIGN.md")
s = open(p).read()
s = re.sub(r"\| check \| planted changes it catches \|\n(\|.*\n|@TABLE@\n)+", lambda _: t, s)
open(p, "w").write(s)
print(sum(len(v) for v in by.values()), "planted changes")
