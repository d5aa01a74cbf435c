PROPERTY = 'P22'
NEEDS = '''Two files with the same number of events read one after the other
by the same loader process, of which the first excludes DOMs.'''
BREAKS = '''The array of DOM exclusions is kept for the next file of the same
size and not reset: its events inherit the exclusions of the previous file.'''
EDITS = [('egenerator/data/modules/data/pulse_data.py',
          '''            bad_doms = np.reshape(detector.bad_doms_mask, [1, 86, 60, 1])
            x_dom_exclusions = (
                np.ones_like(x_dom_charge) * bad_doms).astype(bool)
        else:
            x_dom_exclusions = None

        if self.data['time_exclusions_exist']:
            num_tws''',
          '''            # broadcasting is slow, so keep the mask of the detector
            mask = self._untracked_data.get('detector_mask')
            if mask is None or len(mask) != size:
                bad_doms = np.reshape(
                    detector.bad_doms_mask, [1, 86, 60, 1])
                mask = (np.ones_like(x_dom_charge) * bad_doms).astype(bool)
                self._untracked_data['detector_mask'] = mask
            x_dom_exclusions = mask
        else:
            x_dom_exclusions = None

        if self.data['time_exclusions_exist']:
            num_tws''')]
DEMO = '''
from demohdf import *
limit(100)
with scratch() as d:
    h = module_handler(dom='BadDoms')
    write_file(d + '/a.hdf', [0, 1], excluded={0: [(10, 20)], 1: [(11, 21)]})
    write_file(d + '/b.hdf', [2, 3], excluded={2: [(12, 22)]})
    g = h.get_batch_generator(
        [d + '/a.hdf', d + '/b.hdf'], batch_size=1, num_jobs=1,
        sample_randomly=False, pick_random_files_forever=False)
    found = {}
    for batch in g:
        uid = int(batch[h.tensors.get_index('x_parameters')][0, 4])
        x = batch[h.tensors.get_index('x_dom_exclusions')][0, :, :, 0]
        found[uid] = [bool(x[s - 1, o - 1]) for s, o in (
            (10, 20), (11, 21), (12, 22))]
    check(found == {0: [False, True, True], 1: [True, False, True],
                    2: [True, True, False], 3: [True, True, True]},
          'exclusions %r' % found)
    h.kill()
done()
'''
