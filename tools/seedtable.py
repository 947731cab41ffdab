#!/usr/bin/env python3
"""Prints the table of the planted bugs (seeded/*/meta.json) for DESIGN.md; with -w replaces it there."""
import glob, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| Planted bug | Property | Needs |', '| --- | --- | --- |']
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d))
    rows.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(d)), m['property'], m['needs'].replace('|', '/')))
t = '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->'
if '-w' in sys.argv:
    p = V + '/DESIGN.md'; s = open(p).read()
    s = re.sub(r'SEEDTABLE|<!-- seeds -->.*<!-- /seeds -->', lambda _: t, s, flags=re.S)
    open(p, 'w').write(s)
else: print(t)
