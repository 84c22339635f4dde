#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and seeded/results.txt (seedrun.sh's lines, the last one counts)."""
import json, os, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
res = {}
for l in open(V + "/seeded/results.txt"):
    res[l.split()[0]] = l.strip()
rows = ["| bug | property | needs | caught by its quick check |", "|---|---|---|---|"]
for d in sorted(os.listdir(V + "/seeded")):
    p = V + "/seeded/" + d + "/meta.json"
    if not os.path.exists(p): continue
    m = json.load(open(p)); r = res.get(d, "")
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"], m.get("note") or ("yes" if r.endswith("CAUGHT") else "no" if r else "?")))
s = open(V + "/DESIGN.md").read()
s = re.sub(r"(<!-- seed table -->\n).*(<!-- end -->)", lambda k: k.group(1) + "\n".join(rows) + "\n" + k.group(2), s, flags=re.S)
open(V + "/DESIGN.md", "w").write(s)
