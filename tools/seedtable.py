"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = open(V + '/DESIGN.md').read(); head = d[:d.index('| bug | property')]
rows = ['| bug | property | needs | caught by |', '|---|---|---|---|']
for i in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, i)))
    rows.append('| %s | %s | %s | %s%s |' % (i, m['property'], m['needs'].strip(), m.get('caught_by', m['property']), ' (%s)' % m['note'] if m.get('note') else ''))
open(V + '/DESIGN.md', 'w').write(head + '\n'.join(rows) + '\n')
