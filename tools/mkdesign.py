#!/usr/bin/env python3
"""rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(f'{V}/DESIGN.md').read()
mark = '## Planted bugs\n'
head, _, tail = s.partition(mark)
tail = tail[tail.index('\n## '):] if '\n## ' in tail else ''
rows = ''
for d in sorted(os.listdir(f'{V}/seeded')):
    m = json.load(open(f'{V}/seeded/{d}/meta.json'))
    rows += f"| {d} | {m['property']} | {m['needs']} | {m.get('caught', 'input')} |\n"
open(f'{V}/DESIGN.md', 'w').write(head + mark + f'''
Each was written from a property and the code, compiles, passes the existing tests and has a demonstration.  "input": the check of that property exits 1 with
a failing input, and the obligations the patch breaks are named in the replay file; "proof": the obligation alone.  Changes to `dot.pest`
(C07-bare-key, C08-trailing-text, C11-nested-comment, C11-star-comment) do not count for vcheck (not a source file) and are kept because they are caught.

| planted bug | property | needs | caught by |
|---|---|---|---|
{rows}''' + tail)
