PROPERTY = 'P01'
NEEDS = '''A file whose name contains a wildcard character, e.g. brackets, found
through a pattern.'''
BREAKS = '''The existence of a file is tested with glob, which does not find
names with brackets: these files are silently left out.'''
EDITS = [('egenerator/data/handler/base.py',
          'if file and os.path.exists(file):',
          'if file and glob.glob(file):')]
DEMO = '''
from demolib import *
limit(60)
with scratch() as d:
    files(d, (1, 3))
    files(d, (2, 3), fmt='[{}_{}].x')
    h = handler()
    g = h.get_batch_generator(os.path.join(d, '*.x'), batch_size=2,
                              pick_random_files_forever=False)
    u = sorted(uids(g))
    check(u == [100, 101, 102, 200, 201, 202], 'events %r' % u)
    h.kill()
done()
'''
