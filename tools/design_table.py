"""Rewrites the table of the planted bugs of DESIGN.md."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| planted bug | property (check that catches it) | what it needs |', '|---|---|---|']
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, d)))
    rows.append('| %s | %s | %s |' % (d, m['property'], m['needs'].replace('|', '/')))
t = open(V + '/DESIGN.md').read()
new = '\n'.join(rows)
if '@@TABLE@@' in t:
    t = t.replace('@@TABLE@@', new)
else:
    t = re.sub(r'\| planted bug .*?\n(?!\|)', lambda _: new + '\n', t, flags=re.S)
open(V + '/DESIGN.md', 'w').write(t)
