"""Fills the generated parts of DESIGN.md: python3 tools/write_design.py RESULTS (lines id|property|first line of the check's output)"""
import json
import os
import re
import sys

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(f"{H}/DESIGN.md").read()
by = {}
for f in json.load(open(f"{H}/known_findings.json")):
    by.setdefault((f["commit"], f["what"]), []).append(f["property"])
fixes = "\n".join(f"* {c} ({', '.join(p)}): {w}" for (c, w), p in by.items())
rows = ["| planted bug | property | what it breaks | found at |", "|---|---|---|---|"]
for line in open(sys.argv[1]):
    if "|" not in line:
        continue
    i, p, out = line.rstrip("\n").split("|", 2)
    m = json.load(open(f"{H}/seeded/{i}/meta.json"))
    got = re.match(r"C\d+: run (\d+): \[([\w-]+)\]", out)
    rows.append(f"| {i} | {p} | {m['what_it_breaks']} | {f'run {got[1]}, {got[2]}' if got else 'missed'} |")


def put(name, text):
    global s
    a, b = f"<!-- {name} -->", f"<!-- /{name} -->"
    if a in s:
        s = s[:s.index(a)] + a + "\n" + text + "\n" + s[s.index(b):]
    else:
        s = s.replace(f"\n{name}\n", f"\n{a}\n{text}\n{b}\n", 1)


put("FIXES", fixes)
put("TABLE", "\n".join(rows))
open(f"{H}/DESIGN.md", "w").write(s)
