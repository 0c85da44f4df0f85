#!/usr/bin/env python3
# rewrites the table of seeded bugs in DESIGN.md (between the markers) from seeded/*/meta.json and tools/seed/missed.txt
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
missed = {l.split("|")[0].strip(): l.split("|")[1].strip() for l in open(f"{V}/tools/seed/missed.txt") if "|" in l}
rows = []
for d in sorted(os.listdir(f"{V}/seeded")):
    m = json.load(open(f"{V}/seeded/{d}/meta.json"))
    rows.append(f"| {d} | {m['needs']} | {m['what_it_breaks']} | {m['property']}{' - missed at first: ' + missed[d] if d in missed else ''} |")
t = "\n".join(["| bug | needs | breaks | caught by |", "|---|---|---|---|", *rows])
s = open(f"{V}/DESIGN.md").read()
s = re.sub(r"(<!-- seeded -->\n).*?(\n<!-- /seeded -->)", lambda m: m.group(1) + t + m.group(2), s, flags=re.S)
open(f"{V}/DESIGN.md", "w").write(s)
print(len(rows), "bugs")
