PROPERTY = 'P11'
NEEDS = '''A file that has the table of time exclusions, but not the (optional)
one of DOM exclusions, read with both kinds of exclusions configured.'''
BREAKS = '''Both exclusion tables are read in one step: if the first is absent,
the second one is dropped without a word and the events lose their time
exclusions.'''
EDITS = [('egenerator/data/modules/data/pulse_data.py',
          '''                    self._logger.warning(msg.format(
                        self.configuration.config['dom_exclusions_key']))
                    dom_exclusions = None
            else:
                dom_exclusions = None

            if self.data['time_exclusions_exist']:
                try:
                    time_exclusions = \\
                        f[self''',
          '''                    self._logger.warning(msg.format(
                        self.configuration.config['dom_exclusions_key']))
                    dom_exclusions = None
                has_exclusions = dom_exclusions is not None
            else:
                dom_exclusions = None
                has_exclusions = True

            # files without any exclusions have neither of the tables
            if not has_exclusions:
                time_exclusions = None
            elif self.data['time_exclusions_exist']:
                try:
                    time_exclusions = \\
                        f[self''')]
DEMO = '''
from demohdf import *
limit(100)
with scratch() as d:
    h = module_handler(dom='BadDoms', tw='Windows')
    write_file(d + '/a.hdf', [0, 1, 2], windows=[0, 2])
    n, data = h.get_data_from_hdf(d + '/a.hdf')
    ids = data[h.tensors.get_index('x_time_exclusions_ids')]
    check(n == 3, 'events %r' % n)
    check(ids[:, 0].tolist() == [0, 2], 'time exclusions %r' % ids.tolist())
done()
'''
