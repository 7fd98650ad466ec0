#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md."""
import json, glob, os, re
_R = os.environ.get("VSRC", "/verif")
strong = {"S05-width8","T01-prefix","I06-fold","C07-null-order","C08-meta-cache","I04-float32","R02-comma"} | set(open(_R+"/tools/strengthened.txt").read().split() if os.path.exists(_R+"/tools/strengthened.txt") else [])
rows = ["| bug | check | needs | |", "|---|---|---|---|"]
for f in sorted(glob.glob(_R+"/seeded/*/meta.json")):
    m = json.load(open(f)); n = f.split("/")[-2]
    rows.append(f"| {n} | {m['property']} | {m['needs'].replace('|','/')} | {'strengthened' if n in strong else ''} |")
p = _R+"/DESIGN.md"; s = open(p).read()
t = "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->"
if "SEEDTABLE" in s: s = s.replace("SEEDTABLE", t)
else: s = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: t, s, flags=re.S)
open(p, "w").write(s)
