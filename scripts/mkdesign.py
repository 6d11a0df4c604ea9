#!/usr/bin/env python3
"""writes /verif/DESIGN.md: scripts/design.md.in with the table of planted changes filled in from seeded/"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(V + '/seeded/%s/meta.json' % d))
    rows.append((m['property'], d, m['what_it_breaks'], m['needs']))
rows.sort()
t = '| property | change | what it breaks | needs |\n|---|---|---|---|\n' + '\n'.join('| %s | %s | %s | %s |' % r for r in rows)
s = open(V + '/scripts/design.md.in').read()
open(V + '/DESIGN.md', 'w').write(s.replace('@SEEDS@', t).replace('@NSEEDS@', str(len(rows))))
