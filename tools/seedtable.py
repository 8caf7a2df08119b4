#!/usr/bin/env python3
"""seedtable.py: the table of planted bugs for DESIGN.md, from seeded/*/meta.json."""
import glob
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = {}
for f in sorted(glob.glob(ROOT + '/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.setdefault(m['property'], []).append((os.path.basename(os.path.dirname(f)), m))
print('| caught by the check of | planted bugs |\n|---|---|')
for p in sorted(rows):
    print('| %s | %s |' % (p, ', '.join(i.split('-', 1)[1] for i, _ in rows[p])))
