"""rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import glob
import json
import os
import re

root = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
rows = ['| bug | property, caught by | what it breaks | what it needs |', '|---|---|---|---|']
for d in sorted(glob.glob(root + '/seeded/*')):
    m = json.load(open(d + '/meta.json'))
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(d), m['property'], m['what_it_breaks'], m['needs']))
p = root + '/DESIGN.md'
t = open(p).read()
t = re.sub(r'<!-- seeds -->.*?<!-- end -->', lambda _: '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- end -->', t, flags=re.S)
open(p, 'w').write(t)
