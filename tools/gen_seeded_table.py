#!/usr/bin/env python3
"""Renew the table of planted bugs in DESIGN.md."""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(root + '/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append((m['property'], os.path.basename(os.path.dirname(f)), m['what_it_breaks'], m['needs'], m.get('caught', True)))
rows.sort()
t = ['<!-- table -->', '', f'{len(rows)} in all.', '', '| check that catches it | bug | breaks | needs |', '|---|---|---|---|']
for p, n, b, k, c in rows:
    t.append(f"| {p if c else p + ' (not caught)'} | {n} | {b.replace('|', '/')} | {k.replace('|', '/')} |")
s = open(root + '/DESIGN.md').read()
s = s[:s.index('<!-- table -->')] + '\n'.join(t) + '\n'
open(root + '/DESIGN.md', 'w').write(s)
