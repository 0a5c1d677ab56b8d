#!/usr/bin/env python3
"""Writes the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | caught by | what it breaks | needs |", "|---|---|---|---|"]
for f in sorted(glob.glob(f"{H}/seeded/*/meta.json")):
    d = json.load(open(f))
    n = os.path.basename(os.path.dirname(f))
    rows.append(f"| {n} | {d.get('caught_by', d['property'] + ' quick')} | {d['what_it_breaks']} | {d['needs']} |")
p = f"{H}/DESIGN.md"
s = open(p).read()
s = re.sub(r"(<!-- seeds -->\n).*?(<!-- /seeds -->)", lambda m: m.group(1) + "\n".join(rows) + "\n" + m.group(2), s, flags=re.S)
open(p, "w").write(s)
