PROPERTY = 'P24'
NEEDS = '''Two or more seeds of which not the first one leads to the best fit.'''
BREAKS = '''The table shows the first seed and its loss, instead of the one the
best fit has started from.'''
EDITS = [('egenerator/manager/source.py',
          '''                seed_index = self.data_handler.tensors.get_index(
                    results['reco']['seed_tensor_name'])
''', '''                seed_index = self.data_handler.tensors.get_index(
                    seed_tensor_names[0])
''')]
DEMO = '''
from demodeploy import *
limit(200)
with scratch() as d:
    # the minimiser may not do anything: the better seed is the best fit
    t = reconstruct(source_manager(), [
        ([1., 2., 3., 4.], [5.] * 4, [1., 2., 3., 4.5]),
        ([1., 2., 3., 4.], [1., 2., 3., 4.5], [5.] * 4)], d + '/out.hdf',
        scipy_optimizer_settings={'method': 'BFGS',
                                  'options': {'maxiter': 0}})
    for i in range(2):
        row = [float(t['%s_seed' % n].iloc[i]) for n in NAMES]
        check(near(row, [1., 2., 3., 4.5]), 'seed of event %d: %r' % (i, row))
        check(near(float(t['loss_seed'].iloc[i]), 1.), 'loss of the seed')
done()
'''
