PROPERTY = 'P23'
NEEDS = '''Two or more seeds of which not the first one leads to the best fit.'''
BREAKS = '''The loss of the seed written to the frame is that of the first seed,
not of the seed the best fit has started from.'''
EDITS = [('egenerator/ic3/reconstruction.py',
          '''        result_dict['loss_seed'] = float(results['reco']['loss_seed'])
''', '''        result_dict['loss_seed'] = float(
            results[self.reco_tray.module_names[0]]['loss_seed'])
''')]
DEMO = '''
from demodeploy import *
limit(200)
# the minimiser may not do anything: the better seed is the best fit
m = module(scipy_optimizer_settings={'method': 'BFGS',
                                     'options': {'maxiter': 0}})
f = physics(m, [1., 2., 3., 4.], [5., 5., 5., 5.], [1., 2., 3., 4.5])
check(near(fit_of(f), [1., 2., 3., 4.5]), 'fit %r' % fit_of(f))
check(near(f['out']['loss_reco'], 1.), 'loss %r' % f['out']['loss_reco'])
check(near(f['out']['loss_seed'], 1.), 'loss of the seed %r' %
      f['out']['loss_seed'])
done()
'''
