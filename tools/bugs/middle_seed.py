PROPERTY = 'P11'
NEEDS = '''Three or more seeds, where the table of one in the middle has fewer
rows than the others.'''
BREAKS = '''Only the first and the last seed are compared in length: a
truncated table between them is returned as if it were complete, and its rows
belong to other events than the rest.'''
EDITS = [('egenerator/data/modules/misc/seed_loader.py',
          '''        # check if number of events matches accross all events
        if not np.all([n == num_events for n in num_events_list]):
            msg = 'Not all event numbers match: {!r} for seeds: {!r}.'
            raise ValueError(msg.format(
                num_events_list, self.configuration.config['seed_names']))

        return num_events, seeds

    def get_data_from_frame''', '''        # check if number of events matches accross all events
        if num_events_list[:1] != num_events_list[-1:]:
            msg = 'Not all event numbers match: {!r} for seeds: {!r}.'
            raise ValueError(msg.format(
                num_events_list, self.configuration.config['seed_names']))

        return num_events, seeds

    def get_data_from_frame''')]
DEMO = '''
from demohdf import *
limit(100)
with scratch() as d:
    h = module_handler(seeds=['S1', 'S2', 'S3'])
    write_file(d + '/a.hdf', [0, 1, 2], seeds={'S1': 3, 'S2': 3, 'S3': 3})
    n, data = h.get_data_from_hdf(d + '/a.hdf')
    check(n == 3, 'events %r' % n)
    write_file(d + '/b.hdf', [0, 1, 2], seeds={'S1': 3, 'S2': 2, 'S3': 3})
    try:
        n, data = h.get_data_from_hdf(d + '/b.hdf')
    except Exception:
        n = None
    check(n is None, 'a file with a truncated seed was loaded')
done()
'''
