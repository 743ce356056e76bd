#!/usr/bin/env python3
# writes the table of planted bugs into DESIGN.md (between the markers)
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for i in os.listdir(root + '/seeded'):
    m = json.load(open(f'{root}/seeded/{i}/meta.json'))
    rows.append((m['property'], i, m['what_it_breaks'], m['needs']))
rows.sort()
t = '<!-- seeded -->\n\n| property | planted bug | what it breaks | what it needs |\n|---|---|---|---|\n' + ''.join('| %s | %s | %s | %s |\n' % r for r in rows) + '\n<!-- /seeded -->'
p = root + '/DESIGN.md'
d = open(p).read()
if '@@SEEDED@@' in d: d = d.replace('@@SEEDED@@', t)
else: d = re.sub(r'<!-- seeded -->.*<!-- /seeded -->', lambda _: t, d, flags=re.S)
open(p, 'w').write(d)
