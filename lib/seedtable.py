#!/usr/bin/env python3
"""The table of planted bugs in DESIGN.md, from /verif/seeded/*/meta.json (run by hand)."""
import json, glob, os, re
r = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| planted bug | property | needs |', '|---|---|---|']
for m in sorted(glob.glob(r + '/seeded/*/meta.json')):
    d = json.load(open(m))
    rows.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(m)), d['property'], d['needs'].replace('|', '/')))
p = r + '/DESIGN.md'
s = open(p).read()
s = s.replace('@SEEDS@', '| planted bug | property | needs |\n')
s = re.sub(r'\| planted bug .*\n(\|.*\n)*', '\n'.join(rows) + '\n', s)
open(p, 'w').write(s)
