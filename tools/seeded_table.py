"""Rewrites the table of planted bugs in DESIGN.md."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = set(open(V + '/tools/missed_first.txt').read().split())
rows = ['| change | property | needs | caught by | |', '|---|---|---|---|---|']
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    i = f.split('/')[-2]
    m = json.load(open(f))
    rows.append('| %s | %s | %s | %s quick | %s |' % (i, m['property'], m['needs'].replace('|', '/'), m['property'],
                                                      'missed first' if i in missed else ''))
d = open(V + '/DESIGN.md').read()
a, b = '<!-- seeded table: tools/seeded_table.py -->', '<!-- end of seeded table -->'
d = d[:d.index(a) + len(a)] + '\n' + '\n'.join(rows) + '\n' + d[d.index(b):]
open(V + '/DESIGN.md', 'w').write(d)
