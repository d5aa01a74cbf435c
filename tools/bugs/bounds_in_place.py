PROPERTY = 'P23'
NEEDS = '''Bounds of the minimiser, minimisation in the transformed space and two
or more events (or seeds).'''
BREAKS = '''The bounds are transformed in place: at each further event they are
transformed once more.'''
EDITS = [('egenerator/manager/source.py',
          '''                bounds = self.data_trafo.transform(
                    data=np.array(kwargs['bounds']).T,
                    tensor_name=parameter_tensor_name).T
                for i, bound in enumerate(bounds):
                    for j in range(2):
                        if not np.isfinite(bound[j]):
                            bounds[i, j] = None
                kwargs['bounds'] = bounds

            seed_array_trafo = self.data_trafo.transform(
                data=seed_array, tensor_name=parameter_tensor_name)
        else:
            seed_array_trafo = seed_array

        # get seed parameters
        if np.all(fit_paramater_list):
            x0 = seed_array_trafo
        else:
            # get seed parameters
            x0 = seed_array_trafo[:, fit_paramater_list]

            # bounds''',
          '''                bounds_trafo = self.data_trafo.transform(
                    data=np.array(kwargs['bounds']).T,
                    tensor_name=parameter_tensor_name).T
                bounds = kwargs['bounds']
                for i, bound in enumerate(bounds_trafo):
                    bounds[i] = [x if np.isfinite(x) else None for x in bound]

            seed_array_trafo = self.data_trafo.transform(
                data=seed_array, tensor_name=parameter_tensor_name)
        else:
            seed_array_trafo = seed_array

        # get seed parameters
        if np.all(fit_paramater_list):
            x0 = seed_array_trafo
        else:
            # get seed parameters
            x0 = seed_array_trafo[:, fit_paramater_list]

            # bounds''')]
DEMO = '''
from demodeploy import *
limit(200)
m = module(seed_keys='seed_a', scipy_optimizer_settings={
    'method': 'L-BFGS-B', 'bounds': [[0., 2.], [0., 6.], [None, 6.],
                                     [1., None]]})
for i in range(4):
    f = physics(m, [5., 5., 5., .5], [1.] * 4, [1.] * 4)
    check(near(fit_of(f), [2., 5., 5., 1.]), 'event %d: fit %r' % (
        i, fit_of(f)))
done()
'''
