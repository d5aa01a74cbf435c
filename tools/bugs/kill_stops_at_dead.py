PROPERTY = 'P07'
NEEDS = '''kill() while one worker has already ended and a later started one is
still running.'''
BREAKS = '''kill() stops at the first worker that is not alive any more: the
remaining workers keep running.'''
EDITS = [('egenerator/data/handler/base.py',
          "        for process in self._untracked_data['mp_processes']:\n"
          "            process.terminate()\n",
          "        for process in self._untracked_data['mp_processes']:\n"
          "            if not process.is_alive():\n"
          "                break\n"
          "            process.terminate()\n")]
DEMO = '''
import time
from demolib import *
limit(60)
with scratch() as d:
    h = handler()
    g = h.get_batch_generator(files(d, (1, 20)), batch_size=2, num_jobs=1,
                              batch_capacity=1,
                              pick_random_files_forever=False)
    next(g)
    ps = list(h.untracked_data['mp_processes'])
    while ps[0].is_alive():
        time.sleep(.05)
    h.kill()
    alive = [p for p in ps if p.is_alive()]
    for p in alive:
        p.terminate()
    check(not alive, '%d workers alive after kill()' % len(alive))
done()
'''
