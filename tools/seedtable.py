#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in glob.glob(V + '/seeded/*/meta.json'):
    d = json.load(open(m))
    esc = lambda s: ' '.join(s.split()).replace('|', '\\|')
    rows.append((d['property'], os.path.basename(os.path.dirname(m)), esc(d['needs']), esc(d['what_it_breaks'])))
rows.sort()
t = '| Bug | Breaks (and caught by) | Needs | What it breaks |\n|---|---|---|---|\n' + ''.join('| %s | %s | %s | %s |\n' % (i, p, n, w) for p, i, n, w in rows)
f = V + '/DESIGN.md'
s = open(f).read()
s = re.sub(r'(<!-- seeded -->\n).*?(<!-- /seeded -->)', lambda m: m.group(1) + t + m.group(2), s, flags=re.S)
open(f, 'w').write(s)
