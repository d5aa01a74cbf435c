PROPERTY = 'P09'
NEEDS = '''Two finite generators of the same handler that are alive at the same
time.'''
BREAKS = '''The queue of file names is created once per handler: a second
generator adds its files to the list of the first one, and they take each
other's files.'''
EDITS = [('egenerator/data/handler/base.py',
          '        file_list_queue = multiprocessing.Manager().Queue(maxsize=0)\n',
          "        if 'file_list_queue' not in self._untracked_data:\n"
          "            self._untracked_data['file_list_queue'] = \\\n"
          "                multiprocessing.Manager().Queue(maxsize=0)\n"
          "        file_list_queue = self._untracked_data['file_list_queue']\n")]
DEMO = '''
from demolib import *
limit(60)
with scratch() as d:
    h = handler()
    kw = dict(batch_size=1, num_jobs=1, sample_randomly=False,
              batch_capacity=1, pick_random_files_forever=False)
    a = h.get_batch_generator(files(d, *[(k, 3) for k in range(1, 9)]), **kw)
    first = next(a)
    b = h.get_batch_generator(files(d, *[(k, 3) for k in range(11, 15)]),
                              **kw)
    ub = uids(b)
    ua = uids([first]) + uids(a)
    check(sorted(ua) == [100 * k + i for k in range(1, 9)
                         for i in range(3)], 'first: %r' % ua)
    check(sorted(ub) == [100 * k + i for k in range(11, 15)
                         for i in range(3)], 'second: %r' % ub)
    h.kill()
done()
'''
