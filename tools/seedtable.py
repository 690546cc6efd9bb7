#!/usr/bin/env python3
# Rewrites the "Planted bugs" table at the end of DESIGN.md from the seeds' meta.json.
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(here + '/seeded')):
    m = json.load(open(f'{here}/seeded/{d}/meta.json'))
    rows.append(f"| {d} | {m['what_it_breaks']} | {m['property']} |")
p = here + '/DESIGN.md'
s = open(p).read()
i = s.index('| seed | breaks')
s = s[:i] + "| seed | breaks | caught by |\n|---|---|---|\n" + "\n".join(rows) + "\n"
open(p, 'w').write(s)
