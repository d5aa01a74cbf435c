PROPERTY = 'P13'
NEEDS = '''Saves with different max_keep: first a large one, later a small
one.'''
BREAKS = '''Each save removes at most one old checkpoint, so that more than
max_keep remain after max_keep was reduced.'''
EDITS = [('egenerator/model/base.py',
          "sorted(meta_data['unprotected_checkpoints'].keys())",
          "sorted(meta_data['unprotected_checkpoints'])[:max_keep + 1]")]
DEMO = '''
from demolib import *
with scratch() as d:
    m = model()
    for k in range(1, 6):
        m.save_weights(d, max_keep=10)
    m.save_weights(d, max_keep=2)
    left = sorted(f for f in os.listdir(d) if f.endswith('.index'))
    check([int(f[17:25]) for f in left] == [5, 6], 'left: %r' % left)
'''
