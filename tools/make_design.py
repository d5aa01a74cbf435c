"""Fills the table of seeded bugs into DESIGN.md (between its markers)."""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['<!-- bugs -->', '| property | bug | needs |', '|---|---|---|']
bugs = []
for b in os.listdir(os.path.join(ROOT, 'seeded')):
    m = json.load(open(os.path.join(ROOT, 'seeded', b, 'meta.json')))
    bugs.append((m['property'], b, m['needs']))
for p, b, n in sorted(bugs):
    rows.append('| %s | %s | %s |' % (p, b, n))
rows.append('<!-- /bugs -->')
p = os.path.join(ROOT, 'DESIGN.md')
s = open(p).read()
t = '\n'.join(rows)
if '@TABLE@' in s:
    s = s.replace('@TABLE@', t)
else:
    s = re.sub(r'<!-- bugs -->.*<!-- /bugs -->', lambda m: t, s, flags=re.S)
open(p, 'w').write(s)
