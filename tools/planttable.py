#!/usr/bin/env python3
"""Writes the table of planted bugs in DESIGN.md from the output of 'plant.py check' (files given)."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for f in sys.argv[1:]:
    for l in open(f):
        m = re.match(r"(\S+) (\w+): (caught|MISSED|NO ANSWER)", l)
        if m:
            res[m[1]] = (m[2], m[3])
by = {}
for id in sorted(os.listdir(os.path.join(V, "seeded"))):
    p = json.load(open(os.path.join(V, "seeded", id, "meta.json")))["property"]
    by.setdefault(p, []).append(id)
    if id not in res:
        print("no result for", id, file=sys.stderr)
lines = ["| check | planted bugs it catches | not caught |", "|---|---|---|"]
order = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
for p in order:
    ids = by.get(p, [])
    yes = [i for i in ids if res.get(i, ("", ""))[1] == "caught"]
    no = [i for i in ids if i not in yes]
    lines.append("| %s | %s | %s |" % (p, " ".join(yes), " ".join(no) or "–"))
d = os.path.join(V, "DESIGN.md")
s = open(d).read()
a, b = "<!-- planted -->\n", "<!-- /planted -->\n"
t = a + "\n".join(lines) + "\n" + b
if a in s:
    s = s[:s.index(a)] + t + s[s.index(b) + len(b):]
else:
    s = s.replace("PLACEHOLDER_SEEDED\n", t)
open(d, "w").write(s)
