PROPERTY = 'P02'
NEEDS = '''Two loader jobs that both find the last file name in the list before
one of them takes it.'''
BREAKS = '''The lock around "is a file left" and "take it" is gone: the second
loader waits forever for a file name, its end marker never comes and the
generator never ends.'''
EDITS = [('egenerator/data/handler/base.py',
          '                    with file_counter_lock:\n'
          '                        if not file_list_queue.empty():\n'
          '                            file = file_list_queue.get()\n',
          '                    if not file_list_queue.empty():\n'
          '                        if True:\n'
          '                            file = file_list_queue.get()\n'),
         ('egenerator/data/handler/base.py',
          '                        else:\n'
          '                            # this worker is done\n'
          '                            break\n',
          '                    else:\n'
          '                            # this worker is done\n'
          '                            break\n')]
DEMO = '''
import time
import multiprocessing.managers as M
from demolib import *

# a slow connection to the queue: other workers run in between
real = M.BaseProxy._callmethod
def slow(self, name, *a, **k):
    out = real(self, name, *a, **k)
    if name == 'empty':
        time.sleep(.4)
    return out
M.BaseProxy._callmethod = slow

limit(40)
with scratch() as d:
    h = handler()
    g = h.get_batch_generator(files(d, (1, 3)), batch_size=2, num_jobs=3,
                              sample_randomly=False,
                              pick_random_files_forever=False)
    u = uids(g)
    check(sorted(u) == [100, 101, 102], 'events %r' % u)
    signal.alarm(0)
    h.kill()
done()
'''
