#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from their meta.json."""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(root + '/seeded/*/')):
    m = json.load(open(d + 'meta.json'))
    rows.append(f"| {os.path.basename(d[:-1])} | {m['needs']} | {m.get('caught', m['property'])} |\n")
p = root + '/DESIGN.md'
s = open(p).read()
a = s.index('| planted bug |')
b = s.index('\n\n', a)
s = s[:a] + '| planted bug | needs | caught by |\n|---|---|---|\n' + ''.join(rows).rstrip() + s[b:]
open(p, 'w').write(s)
