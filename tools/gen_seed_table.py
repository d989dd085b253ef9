#!/usr/bin/env python3
# Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json and
# tools/seed_results.txt (what was caught when they were last run).
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for l in open(f"{root}/tools/seed_results.txt"):
    i, c = l.split(":")
    res[i] = c.split()
rows = []
for i in sorted(os.listdir(f"{root}/seeded")):
    m = json.load(open(f"{root}/seeded/{i}/meta.json"))
    own = m["property"]
    rest = [c for c in res.get(i, []) if c != own]
    by = ("**" + own + "**" if own in res.get(i, []) else "not by " + own) + (" " + " ".join(rest) if rest else "")
    rows.append(f"| {i} | {m['needs']} | {by} |")
t = "| change | shows with | caught by |\n|---|---|---|\n" + "\n".join(rows) + "\n"
p = f"{root}/DESIGN.md"
s = open(p).read()
a, b = "<!-- seeds -->\n", "<!-- /seeds -->\n"
s = s[:s.index(a) + len(a)] + t + s[s.index(b):]
open(p, "w").write(s)
print(len(rows), "changes")
