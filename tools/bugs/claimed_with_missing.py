PROPERTY = 'P04'
NEEDS = '''A file that vanishes after the list was made, in a loader that has
already claimed another file with it.'''
BREAKS = '''Loaders claim two files at once; when the first one is missing, the
second one is dropped with it although it is fine.'''
EDITS = [('egenerator/data/handler/base.py',
          '''            local_random_state = np.random.RandomState(seed)

            while True:
''', '''            local_random_state = np.random.RandomState(seed)
            claimed = []

            while True:
'''), ('egenerator/data/handler/base.py',
       '''                    with file_counter_lock:
                        if not file_list_queue.empty():
                            file = file_list_queue.get()
''', '''                    with file_counter_lock:
                        # claim two files at once, the lock is expensive
                        while (len(claimed) < 2 and
                                not file_list_queue.empty()):
                            claimed.append(file_list_queue.get())
                        if claimed:
                            file = claimed.pop(0)
'''), ('egenerator/data/handler/base.py',
       '''                    self._logger.warning(
                        'File {!r} does not exist.'.format(file))
''', '''                    self._logger.warning(
                        'File {!r} does not exist.'.format(file))
                    claimed = []
''')]
DEMO = '''
from demolib import *
limit(60)

def hook(file):
    # the file after the first one vanishes while that is being read
    if file.endswith('1_3.x'):
        os.remove(file.replace('1_3.x', '2_3.x'))

LOAD_HOOK[0] = hook
with scratch() as d:
    h = handler()
    g = h.get_batch_generator(
        files(d, (1, 3), (2, 3), (3, 3), (4, 2)), batch_size=2,
        num_jobs=1, sample_randomly=False, pick_random_files_forever=False)
    u = uids(g)
    check(sorted(u) == [100, 101, 102, 300, 301, 302, 400, 401],
          'events %r' % sorted(u))
    h.kill()
done()
'''
