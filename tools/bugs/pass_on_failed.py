PROPERTY = 'P23'
NEEDS = '''A frame for which evaluating the loss fails.'''
BREAKS = '''The frame is passed on as if nothing had happened, after the
covariances of nothing were written: without results.'''
EDITS = [('egenerator/ic3/reconstruction.py',
          '''        results = self.reco_tray.execute(data_batch)
''', '''        try:
            results = self.reco_tray.execute(data_batch)
        except Exception as e:
            print('Could not reconstruct event: {}'.format(e))
            self.PushFrame(frame)
            return
''')]
DEMO = '''
from demodeploy import *
limit(200)
m = module()
physics(m, [1., 2., 3., 4.], [0.] * 4, [5.] * 4)
check(len(m.pushed) == 1, 'pushed %d frames' % len(m.pushed))
m.reco_tray.modules[0].reconstruction_method = lambda *a: fail()
try:
    physics(m, [1., 2., 3., 4.], [0.] * 4, [5.] * 4)
except Exception as e:
    print('raised', type(e))
else:
    check(False, 'no error')
check(len(m.pushed) == 1, 'pushed %d frames' % len(m.pushed))
done()
'''
