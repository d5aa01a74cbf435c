PROPERTY = 'P03'
NEEDS = '''num_repetitions >= 2 and a batch that contains the same event twice,
i.e. one that spans the end of one repetition and the start of the next.'''
BREAKS = '''The index tensor of an event is modified in place, so that both
copies of the event in the batch get the row number of the second one.'''
EDITS = [('egenerator/data/handler/base.py',
          'indices = np.array(event_list[i][index])',
          'indices = np.asarray(event_list[i][index])')]
DEMO = '''
from demolib import *
limit(60)
with scratch() as d:
    h = handler()
    g = h.get_batch_generator(files(d, (1, 5)), batch_size=8, num_jobs=1,
                              sample_randomly=False, num_repetitions=3,
                              pick_random_files_forever=False)
    for b in g:
        check_batch(b)
    h.kill()
done()
'''
