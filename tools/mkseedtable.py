#!/usr/bin/env python3
"""Rewrites the table of planted bugs of DESIGN.md from seeded/*/meta.json (run by hand; no check reads it)."""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for i in sorted(os.listdir(H + '/seeded')):
    m = json.load(open(f'{H}/seeded/{i}/meta.json'))
    rows.append((m['property'], i, m['what_it_breaks'], m['needs']))
t = '| check | planted bug | what it breaks | needs |\n|---|---|---|---|\n' + ''.join('| %s | %s | %s | %s |\n' % r for r in sorted(rows))
s = open(H + '/DESIGN.md').read()
s = re.sub(r'<!-- seeded -->.*<!-- /seeded -->', lambda _: '<!-- seeded -->\n' + t + '<!-- /seeded -->', s, flags=re.S)
open(H + '/DESIGN.md', 'w').write(s)
