PROPERTY = 'P10'
NEEDS = 'A second pass over the same finite dataset.'
BREAKS = '''The generator is created once with the dataset: the second iteration
of the dataset finds it exhausted and yields nothing.'''
EDITS = [('egenerator/data/handler/base.py',
          '''        def get_generator():
            return self.get_batch_generator(
''', '''        generator = self.get_batch_generator(
'''), ('egenerator/data/handler/base.py',
       '''        # collect output types and shapes
''', '''        def get_generator():
            return generator

        # collect output types and shapes
''')]
DEMO = '''
from demolib import *
limit(100)
with scratch() as d:
    h = handler()
    ds = h.get_tf_dataset(files(d, (1, 3), (2, 2)), batch_size=2,
                          pick_random_files_forever=False)
    for k in range(2):
        u = uids(ds)
        check(sorted(u) == [100, 101, 102, 200, 201],
              'events of pass %d: %r' % (k, u))
    h.kill()
done()
'''
