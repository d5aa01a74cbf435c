"""Small hdf files for the modules of the data handler."""
import pandas as pd

from demolib import *
from egenerator.data.handler.modular import ModuleDataHandler

ID = ['Run', 'Event', 'SubEvent', 'SubEventStream']


def table(rows, names):
    cols = {}
    for i, n in enumerate(names):
        cols[n] = np.array([r[i] for r in rows], dtype='float64' if rows and
                           isinstance(rows[0][i], float) else 'int64')
    return pd.DataFrame(cols)


def event_id(uid):
    """Four numbers, only unique together."""
    return (1, uid // 4, uid % 4 // 2, uid % 2)


def write_file(path, uids, skip=(), windows=None, excluded=None, pulses=2,
               seeds=None):
    """seeds: name -> number of rows; excluded: uid -> list of DOMs."""
    t = {}
    label = ['cascade_x', 'cascade_y', 'cascade_z', 'cascade_zenith',
             'cascade_azimuth', 'cascade_energy', 'cascade_t']
    t['LabelsDeepLearning'] = table(
        [event_id(u) + (0., 0., 0., 1., float(u), 100., 5.) for u in uids],
        ID + label)
    om = ['exists', 'string', 'om', 'pmt', 'vector_index', 'time', 'width',
          'charge']
    t['Pulses'] = table(
        [event_id(u) + (1, 1 + j, 5, 0, j, float(u), 1., float(j + 1))
         for u in uids for j in range(pulses)], ID + om)
    if windows is not None:
        t['Windows'] = table(
            [event_id(u) + (1, 3, 7, 0, 0, float(u), float(u + 1), 0.)
             for u in windows], ID + om)
    if excluded is not None:
        t['BadDoms'] = table(
            [event_id(u) + (1, 0, s, o) for u in sorted(excluded)
             for s, o in excluded[u]],
            ID + ['exists', 'vector_index', 'string', 'om'])
    for name, n in (seeds or {}).items():
        t[name] = table([event_id(u) + (float(u),) for u in uids[:n]],
                        ID + ['x'])
    for key, value in t.items():
        if key not in skip:
            value.to_hdf(path, key=key, mode='a')


def module_handler(dom=None, tw=None, seeds=()):
    h = ModuleDataHandler()
    h.configure(config={
        'data_module': 'pulse_data.PulseDataModule',
        'data_settings': {
            'pulse_key': 'Pulses', 'dom_exclusions_key': dom,
            'time_exclusions_key': tw, 'float_precision': 'float32',
            'add_charge_quantiles': False,
            'discard_pulses_from_excluded_doms': False},
        'label_module': 'cascades.CascadeGeneratorLabelModule',
        'label_settings': {
            'float_precision': 'float32', 'trafo_log': False,
            'label_key': 'LabelsDeepLearning',
            'shift_cascade_vertex': False},
        'weight_module': 'dummy.DummyWeightModule', 'weight_settings': {},
        'misc_module': 'seed_loader.SeedLoaderMiscModule' if seeds else
        'dummy.DummyMiscModule',
        'misc_settings': {
            'seed_names': list(seeds), 'seed_parameter_names': ['x'],
            'float_precision': 'float32'} if seeds else {},
        'filter_module': 'dummy.DummyFilterModule', 'filter_settings': {}})
    return h
