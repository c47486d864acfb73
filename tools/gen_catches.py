"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/catches.json."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
parts = json.load(open(os.path.join(here, 'tools/catches.json')))
rows = ['| planted bug | property | needs | caught by |', '|---|---|---|---|']
for i in sorted(os.listdir(os.path.join(here, 'seeded'))):
  m = json.load(open(os.path.join(here, 'seeded', i, 'meta.json')))
  rows.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'].replace('|', '/'), parts.get(i, m['property'])))
f = os.path.join(here, 'DESIGN.md')
s = open(f).read()
new = '<!-- catches -->\n' + '\n'.join(rows) + '\n<!-- /catches -->'
if '@@CATCHES@@' in s:
  s = s.replace('@@CATCHES@@', new)
else:
  s = re.sub(r'<!-- catches -->.*<!-- /catches -->', lambda m: new, s, flags=re.S)
open(f, 'w').write(s)
