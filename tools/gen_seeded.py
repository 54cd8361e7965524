#!/usr/bin/env python3
"""Rewrite the list of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = {}
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(f'{V}/seeded/{d}/meta.json'))
    by.setdefault(m['property'], []).append((d, m))
missed = json.load(open(V + '/tools/missed.json')) if os.path.exists(V + '/tools/missed.json') else {}
out = []
for p in sorted(by):
    out.append(f"| {p} | " + '; '.join(f"`{d}`" + (f" (NOT caught: {missed[d]})" if d in missed else '') for d, _ in by[p]) + ' |')
t = '\n'.join(['<!-- seeded -->', f"{sum(map(len, by.values()))} changes; each is caught by the quick check of its own property unless marked.", '',
               '| property and check | changes |', '|---|---|'] + out + ['<!-- /seeded -->'])
f = V + '/DESIGN.md'
s = open(f).read()
if '<!-- seeded -->' in s:
    s = re.sub(r'<!-- seeded -->.*<!-- /seeded -->', lambda _: t, s, flags=re.S)
else:
    s = s.rstrip('\n') + '\n\n## Planted bugs, and which checks catch them\n\n' + t + '\n'
open(f, 'w').write(s)
