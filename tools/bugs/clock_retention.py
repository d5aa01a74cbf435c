PROPERTY = 'P13'
NEEDS = '''A clock that is set back between two saves.'''
BREAKS = '''Which checkpoints are old is decided by their time stamps: after the
clock was set back the newest checkpoint is removed.'''
EDITS = [('egenerator/model/base.py',
          "                sorted(meta_data['unprotected_checkpoints'].keys())",
          "                sorted(meta_data['unprotected_checkpoints'].keys(),\n"
          "                       key=lambda n: meta_data[\n"
          "                           'unprotected_checkpoints'][n]['time_stamp'])")]
DEMO = '''
import time
from demolib import *
now = [5000.]
time.time = lambda: now[0]
with scratch() as d:
    m = model()
    for k in range(1, 6):
        now[0] += 10 if k != 5 else -1000
        put(m, k)
        m.save_weights(d, max_keep=3)
    m.load_weights(d)
    check(got(m) == 5, 'loaded %r' % got(m))
'''
