#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = json.load(open(os.path.join(V, 'tools', 'caught.json')))
rows = []
for i in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, i)))
    f = re.findall(r'^\+\+\+ b/(\S+)', open('%s/seeded/%s/patch.diff' % (V, i)).read(), re.M)
    rows.append((m['property'], i, ', '.join(os.path.basename(x) for x in f),
                 m['what_it_breaks'].split('. ')[0].rstrip('.'), NOTE.get(i, 'caught')))
t = '| Property | Bug | File | Breaks | Quick check |\n|----|----|----|----|----|\n'
t += ''.join('| %s |\n' % ' | '.join(x.replace('|', '/').replace('\n', ' ') for x in r) for r in sorted(rows))
p = V + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'<!-- table -->.*<!-- end -->', lambda m: '<!-- table -->\n' + t + '<!-- end -->', s, flags=re.S)
open(p, 'w').write(s)
print(len(rows), 'bugs')
