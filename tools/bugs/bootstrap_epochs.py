PROPERTY = 'P01'
NEEDS = '''sample_randomly=True and num_repetitions >= 2, and counting every
event over the whole pass.'''
BREAKS = '''Only the first repetition is a permutation of the events, later ones
draw with replacement: events are lost and repeated.'''
EDITS = [('egenerator/data/handler/base.py',
          'shuffled_indices = np.random.permutation(queue_size)',
          'shuffled_indices = np.random.choice(\n'
          '                            queue_size, queue_size, replace=epoch > 0)')]
DEMO = '''
from collections import Counter
from demolib import *
limit(60)
with scratch() as d:
    h = handler()
    g = h.get_batch_generator(files(d, (1, 40)), batch_size=7,
                              num_repetitions=3,
                              pick_random_files_forever=False)
    c = Counter(uids(g))
    check(sorted(c.items()) == [(100 + i, 3) for i in range(40)], str(c))
    h.kill()
done()
'''
