#!/usr/bin/env python3
# Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json.
import json, glob, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(root + '/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append((m['property'], os.path.basename(os.path.dirname(f)), m['needs']))
rows.sort()
t = '| check that catches it | planted bug | needs |\n|---|---|---|\n'
t += ''.join('| %s | %s | %s |\n' % (p, i, n.replace('|', '/')) for p, i, n in rows)
p = root + '/DESIGN.md'
s = open(p).read()
a, b = '<!-- bugs -->\n', '<!-- /bugs -->\n'
i, j = s.index(a) + len(a), s.index(b)
open(p, 'w').write(s[:i] + t + s[j:])
