"""Rewrite the table of planted bugs in DESIGN.md."""
import glob
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(HERE + '/seeded/*/meta.json')):
    with open(d) as f:
        m = json.load(f)
    rows.append((m['property'], d.split('/')[-2], m['needs'].replace('|', '/')))
t = '| caught by | bug | needs |\n|---|---|---|\n' + ''.join('| %s | %s | %s |\n' % x for x in sorted(rows))
p = HERE + '/DESIGN.md'
with open(p) as f:
    s = f.read()
s = re.sub(r'\| caught by \| bug.*?\n\n', lambda _: t + '\n', s, flags=re.S)
with open(p, 'w') as f:
    f.write(s)
