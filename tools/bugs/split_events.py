PROPERTY = 'P22'
NEEDS = '''A file with events that only differ in the sub event stream.'''
BREAKS = '''Pulses are assigned by run, event and sub event only: events which
differ in the sub event stream alone get the pulses of each other.'''
EDITS = [('egenerator/data/modules/data/pulse_data.py',
          '''            event_dict[(row[1][0], row[1][1], row[1][2], row[1][3])] = row[0]
''', '''            event_dict[(row[1][0], row[1][1], row[1][2], row[1][3])] = row[0]
        pulse_dict = {key[:3]: i for key, i in event_dict.items()}
'''), ('egenerator/data/modules/data/pulse_data.py',
       '''            index = event_dict[(row[1:5])]

            # pulse charge''',
       '''            index = pulse_dict[(row[1:4])]

            # pulse charge''')]
DEMO = '''
from demohdf import *
limit(100)
with scratch() as d:
    h = module_handler()
    write_file(d + '/a.hdf', [0, 1, 2, 3])
    g = h.get_batch_generator(
        [d + '/a.hdf'], batch_size=1, num_jobs=1,
        sample_randomly=False, pick_random_files_forever=False)
    found = {}
    for batch in g:
        uid = int(batch[h.tensors.get_index('x_parameters')][0, 4])
        found[uid] = batch[h.tensors.get_index('x_pulses')].tolist()
    check(found == {u: [[1., u], [2., u]] for u in range(4)},
          'pulses %r' % found)
    h.kill()
done()
'''
