PROPERTY = 'P12'
NEEDS = '''An input that ends before num_batches batches were delivered.'''
BREAKS = '''The transformation is configured with the statistics of fewer
batches than it says, instead of raising an error.'''
EDITS = [('egenerator/data/trafo.py',
          '''            data_batch = next(data_iterator)

            # loop''', '''            # note: the last batches of a finite input may be missing
            data_batch = next(data_iterator, None)
            if data_batch is None and i > 0:
                break

            # loop''')]
DEMO = '''
from demolib import *
from egenerator.data.trafo import DataTransformer
limit(100)
with scratch() as d:
    h = handler()
    inp = files(d, (1, 3), (2, 3))
    settings = dict(input_data=inp, batch_size=2, num_jobs=1,
                    sample_randomly=False, pick_random_files_forever=False)
    trafo = DataTransformer()
    error = None
    try:
        trafo.configure(data_handler=h, data_iterator_settings=settings,
                        num_batches=5)
    except Exception as e:
        error = e
    check(error is not None, 'no error for a short input')
    check(not trafo.is_configured, 'configured with a short input')
    h.kill()
done()
'''
