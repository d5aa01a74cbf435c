PROPERTY = 'P06'
NEEDS = '''An explicit list of files whose order is not the alphabetical one.'''
BREAKS = '''The files of a finite pass are taken in alphabetical order instead of
the given one.'''
EDITS = [('egenerator/data/handler/base.py',
          '            for file in file_list:\n                file_list_queue.put(file)',
          '            for file in (file_list if sample_randomly\n'
          '                         else sorted(set(file_list))):\n'
          '                file_list_queue.put(file)')]
DEMO = '''
from demolib import *
limit(60)
with scratch() as d:
    h = handler()
    g = h.get_batch_generator(files(d, (3, 2), (1, 2), (2, 2)), batch_size=2,
                              num_jobs=1, sample_randomly=False,
                              pick_random_files_forever=False)
    u = uids(g)
    check(u == [300, 301, 100, 101, 200, 201], 'order %r' % u)
    h.kill()
done()
'''
