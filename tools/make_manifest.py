"""Writes /verif/MANIFEST.json from sim/meta.py and properties.jsonl."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from sim.meta import META, NOT_APPLICABLE  # noqa

props = [json.loads(x) for x in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in META:
        m = META[i]
        checks.append({
            'property': i,
            'quick_cmd': './run check %s --tier quick' % i,
            'thorough_cmd': './run check %s --tier thorough' % i,
            'technique': m['technique'],
            'level': m['level'],
            'level_note': m['note'],
        })
    else:
        na.append({'property': i, 'reason': NOT_APPLICABLE[i]})
out = {'version': 1, 'setup_cmd': './run setup', 'checks': checks,
       'not_applicable': na,
       'notes': 'No hooks in /repo: every seam is an attribute of the Python '
                'standard library or of egenerator replaced from outside.'}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(out, f, indent=1)
    f.write('\n')
print(len(checks), 'checks,', len(na), 'not applicable')
