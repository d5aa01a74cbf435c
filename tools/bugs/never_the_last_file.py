PROPERTY = 'P08'
NEEDS = '''Endless mode with at least two files, watched long enough to notice
that one file is never used.'''
BREAKS = '''The random choice of files excludes the last file of the list.'''
EDITS = [('egenerator/data/handler/base.py',
          '                    file = local_random_state.choice(file_list)',
          '                    file = file_list[local_random_state.randint(\n'
          '                        0, max(1, len(file_list) - 1))]')]
DEMO = '''
from demolib import *
limit(100)
with scratch() as d:
    h = handler()
    g = h.get_batch_generator(files(d, (1, 4), (2, 4), (3, 4)), batch_size=4,
                              sample_randomly=False)
    u = uids(next(g) for _ in range(60))
    check(set(x // 100 for x in u) == {1, 2, 3}, 'files used: %r'
          % sorted(set(x // 100 for x in u)))
    h.kill()
done()
'''
