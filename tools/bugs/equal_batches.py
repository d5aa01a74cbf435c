PROPERTY = 'P12'
NEEDS = '''A finite input whose last batch is smaller than the others.'''
BREAKS = '''Mean and standard deviation are merged batch by batch with equal
weights, so that the events of a smaller last batch count too much.'''
EDITS = [('egenerator/data/trafo.py',
          '''        for x in data_batch:
            n += 1
            delta = x - mean
            mean += delta/n
            delta2 = x - mean
            M2 += delta*delta2
        return n, mean, M2''',
          '''        # merge statistics of the whole batch at once
        n += 1
        batch_mean = np.mean(data_batch, axis=0)
        delta = batch_mean - mean
        mean += delta/n
        M2 += np.mean((data_batch - batch_mean)**2, axis=0)
        M2 += delta * (batch_mean - mean)
        return n, mean, M2''')]
DEMO = '''
from demolib import *
from egenerator.data.trafo import DataTransformer
limit(100)
with scratch() as d:
    h = handler()
    settings = dict(input_data=files(d, (1, 5)), batch_size=2, num_jobs=1,
                    sample_randomly=False, pick_random_files_forever=False)
    trafo = DataTransformer()
    trafo.configure(data_handler=h, data_iterator_settings=settings,
                    num_batches=3)
    x = content([100, 101, 102, 103, 104])[1][0].astype('float64')
    check(np.allclose(trafo.data['feat_mean'], x.mean(axis=0)),
          'mean %r' % trafo.data['feat_mean'])
    check(np.allclose(trafo.data['feat_std'], x.std(axis=0)),
          'std %r' % trafo.data['feat_std'])
    h.kill()
done()
'''
