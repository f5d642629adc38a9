#!/usr/bin/env python3
"""Rewrites the generated tables of DESIGN.md (fixes, planted bugs)."""
import json, os, re
V = '/verif'
d = open(V + '/DESIGN.md').read()
k = json.load(open(V + '/known-findings.json'))
fx = '\n'.join('- ' + x['line'].replace('fixed: property=', '').replace(' ', ' `', 1).replace(' ', '` ', 2).replace('` `', ' `', 1) if False else '- %s `%s`: %s' % (x['property'], x.get('commit', '-'), x['line'].split(' ', 3)[3]) for x in k if x['status'] == 'fixed')
rows = []
for n in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(f'{V}/seeded/{n}/meta.json'))
    rows.append((m['property'], n, m['what_it_breaks'].replace('|', '/')[:160]))
sd = '| caught by | change | what it breaks |\n|---|---|---|\n' + '\n'.join('| %s | %s | %s |' % r for r in sorted(rows))
for t, v in (('fixes', fx), ('seeds', sd)):
    d = re.sub(r'<!-- %s -->.*?<!-- /%s -->' % (t, t), lambda _: '<!-- %s -->\n%s\n<!-- /%s -->' % (t, v, t), d, flags=re.S)
open(V + '/DESIGN.md', 'w').write(d)
