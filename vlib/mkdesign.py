"""Joins meta/design_head.md, meta/design_tail.md and the table of planted bugs into DESIGN.md."""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| planted bug | property | needs | caught by |', '|---|---|---|---|']
also = {'terminal-reads-initial-quadrature': 'C25, C16'}
for f in sorted(glob.glob(os.path.join(root, 'seeded', '*', 'meta.json'))):
    i = os.path.basename(os.path.dirname(f))
    m = json.load(open(f))
    rows.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'].replace('|', '/'), also.get(i, m['property'])))
h = open(os.path.join(root, 'meta', 'design_head.md')).read()
t = open(os.path.join(root, 'meta', 'design_tail.md')).read()
open(os.path.join(root, 'DESIGN.md'), 'w').write(h + t.replace('SEEDTABLE', '\n'.join(rows)))
