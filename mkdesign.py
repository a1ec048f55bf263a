#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
here = os.path.dirname(os.path.abspath(__file__))
rows = ['| property | planted bug | needs |', '|---|---|---|']
for f in sorted(glob.glob(os.path.join(here, 'seeded/*/meta.json')), key=lambda f: (json.load(open(f))['property'], f)):
    m = json.load(open(f))
    rows.append('| %s | %s | %s |' % (m['property'], os.path.basename(os.path.dirname(f)), m['needs']))
p = os.path.join(here, 'DESIGN.md')
s = open(p).read()
t = '<!-- bugs -->\n' + '\n'.join(rows) + '\n<!-- end -->'
s = re.sub(r'@@TABLE@@|<!-- bugs -->.*<!-- end -->', lambda _: t, s, flags=re.S)
open(p, 'w').write(s)
