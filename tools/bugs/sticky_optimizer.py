PROPERTY = 'P19'
NEEDS = 'Two training runs with different optimizer settings by one manager object.'
BREAKS = 'The second run still uses the optimizer of the first one: wrong learning rate, although the new one is recorded.'
EDITS = [('egenerator/manager/base.py', "        self._untracked_data['optimizer'] = optimizer\n\n        # save", "        self._untracked_data.setdefault('optimizer', optimizer)\n\n        # save")]
DEMO = '''
from demolib import *
with scratch() as d:
    m = fleet(d + '/m', [1.])
    train(m, 1)
    check(weights(m) == [[-1., -1.]], 'weights %r' % weights(m))
    train(m, 1, optimizer_settings={'learning_rate': .25})
    check(weights(m) == [[-1.25, -1.25]], 'weights %r' % weights(m))
'''
