PROPERTY = 'P03'
NEEDS = '''A file whose vector entries are not sorted by event.'''
BREAKS = '''The vector entries of an event are cut out as one contiguous slice,
which assigns entries to the wrong events if they are not sorted.'''
EDITS = [('egenerator/data/handler/base.py',
          '            mask = indices[:, 0] == i\n',
          '            start, stop = np.searchsorted(indices[:, 0], [i, i + 1])\n'
          '            mask = slice(start, stop)\n')]
DEMO = '''
from demolib import *
limit(60)
with scratch() as d:
    h = handler(riffle=True)
    g = h.get_batch_generator(files(d, (1, 9)), batch_size=4, num_jobs=1,
                              sample_randomly=False,
                              pick_random_files_forever=False)
    for b in g:
        check_batch(b)
    h.kill()
done()
'''
