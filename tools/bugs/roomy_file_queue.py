PROPERTY = 'P05'
NEEDS = '''num_add_files > 0 and a consumer that stops taking batches.'''
BREAKS = '''The queue of loaded files holds (1 + num_add_files) times as many
files as file_capacity allows.'''
EDITS = [('egenerator/data/handler/base.py',
          '                                                    maxsize=file_capacity)',
          '                                maxsize=file_capacity * (1 + num_add_files))')]
DEMO = '''
import time
import multiprocessing
import demolib
from demolib import *
limit(60)
n = multiprocessing.Value('i', 0)
def hook(f):
    with n.get_lock():
        n.value += 1
demolib.LOAD_HOOK[0] = hook
with scratch() as d:
    h = handler()
    g = h.get_batch_generator(files(d, *[(k, 6) for k in range(40)]),
                              batch_size=2, num_jobs=1, num_add_files=3,
                              file_capacity=1, batch_capacity=1,
                              sample_randomly=False,
                              pick_random_files_forever=False)
    next(g)
    last = -1
    while n.value != last:
        last = n.value
        time.sleep(1.)
    # 4 being batched, 1 waiting, 1 held by the loader
    check(n.value <= 6, '%d files loaded ahead' % n.value)
    h.kill()
done()
'''
