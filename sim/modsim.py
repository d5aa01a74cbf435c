"""Simulated hdf files and frames for the modules of the data handler."""
from . import env
env.setup()

import math
import sys
import types

import numpy as np
import pandas as pd

from . import kernel as K

# ------------------------------------------------------- stub of icecube ---
class OMKey(tuple):
    string = property(lambda self: self[0])
    om = property(lambda self: self[1])


class _Obj(object):

    def __init__(self, **kw):
        self.__dict__.update(kw)


class I3Particle(_Obj):
    pass


class I3RecoPulseSeriesMapMask(_Obj):

    def apply(self, frame):
        if self.fail:
            raise RuntimeError('the mask does not fit to the pulses')
        return frame[self.source]


class I3RecoPulseSeriesMapUnion(I3RecoPulseSeriesMapMask):
    pass


class I3MapStringDouble(dict):
    pass


def install_icecube():
    if 'icecube' in sys.modules:
        return
    m = types.ModuleType('icecube')
    d = types.ModuleType('icecube.dataclasses')
    for c in (I3Particle, I3RecoPulseSeriesMapMask,
              I3RecoPulseSeriesMapUnion, I3MapStringDouble):
        setattr(d, c.__name__, c)
    m.dataclasses = d
    m.__path__ = []
    sys.modules['icecube'] = m
    sys.modules['icecube.dataclasses'] = d


install_icecube()
from egenerator.data.handler.modular import ModuleDataHandler   # noqa: E402
from egenerator.utils import detector                           # noqa: E402

LABELS = 'LabelsDeepLearning'
KINDS = ['cascades', 'muons', 'snow_cascades', 'snow_tracks', 'snow_segment',
         'dummy']
CLASSES = {
    'cascades': 'cascades.CascadeGeneratorLabelModule',
    'muons': 'muons.DummyMuonFixedCascadesLabelModule',
    'snow_cascades':
        'snowstorm_cascades.SnowstormCascadeGeneratorLabelModule',
    'snow_tracks': 'snowstorm_tracks.SnowstormTrackGeneratorLabelModule',
    'snow_segment':
        'snowstorm_track_segment.'
        'SnowstormTrackSegmentGeneratorLabelModule',
    'dummy': 'dummy.DummyLabelModule',
}
SEED_PARAMS = ['x', 'y', 'z', 'zenith', 'azimuth', 'energy', 'time', 'gain']
C = 0.299792458


# ---------------------------------------------------------------- events ---
def event_id(uid):
    """(Run, Event, SubEvent, SubEventStream): unique together only."""
    return (100000 + uid // 2 % 2, uid // 8, uid // 4 % 2, uid % 2)


def pulses_of(uid, cfg):
    """List of (string, om, time, width, charge), ordered by the DOM."""
    salt = cfg.get('salt', 0)
    n = (uid * 7 + salt) % 6
    if cfg.get('sparse') and uid % 3:
        n = 0
    doms = [(1 + (uid * 5 + 7 * salt) % 86, 1 + (uid * 3) % 60),
            (1 + (uid + 40) % 86, 1 + (uid * 11 + 5) % 60),
            (36, 61 + uid % 4)]
    out = []
    for j in range(n):
        d = doms[(uid + j * (2 + salt)) % (3 if cfg.get('icetop') else 2)]
        out.append(d + (float(uid % 50 * 100 + (j * 37) % 90) + 0.5,
                        float(j), 0.25 * (1 + (uid + 3 * j) % 9)))
    return sorted(out, key=lambda p: p[:2])


def windows_of(uid, cfg):
    n = (uid * 3 + 1) % 4
    out = []
    for j in range(n):
        om = 1 + (uid * 13 + j) % 60
        if cfg.get('icetop') and (uid + j) % 5 == 0:
            om = 62
        out.append((1 + (uid * 2 + j) % 86, om, float(uid + j),
                    float(uid + 2 * j + 10)))
    return sorted(out, key=lambda p: p[:2])


def excluded_of(uid, cfg):
    """DOMs; one of them usually has a pulse."""
    out = []
    p = pulses_of(uid, cfg)
    if p and uid % 2:
        out.append(p[uid % len(p)][:2])
    if uid % 3 == 0:
        out.append((1 + uid % 86, 1 + uid % 60))
    if cfg.get('icetop') and uid % 4 == 0:
        out.append((3, 64))
    return out


def labels_of(uid, cfg):
    v = {'cascade_x': uid * 1.5, 'cascade_y': -uid * 0.5,
         'cascade_z': 3.25 + uid % 7, 'cascade_zenith': 0.25 + (uid % 5) / 2.,
         'cascade_azimuth': float(uid), 'cascade_energy': 100. * (1 + uid % 9),
         'cascade_t': 1000. + uid}
    w = {'zenith': .5 + (uid % 4) / 4., 'azimuth': float(uid),
         'track_anchor_x': uid * 2., 'track_anchor_y': 1. - uid,
         'track_anchor_z': uid % 13 * 1., 'track_anchor_time': uid + .5,
         'track_energy': 50. + uid, 'track_distance_start': 0.,
         'track_distance_end': 500. + uid % 3,
         'track_stochasticity': (uid % 8) / 8.,
         'cascade_0000_energy': 30. * (1 + uid % 6)}
    for i in range(1, 4):
        w['cascade_%04d_energy' % i] = 20. * (i + uid % 5)
        w['cascade_%04d_distance' % i] = 25. * i + uid % 3
    v.update(w)
    v['extra_a'] = uid % 19 + .25
    v['extra_b'] = -1. * uid
    return v


def snow_of(uid, cfg):
    return [0.5 + ((uid * (i + 3)) % 16) / 16. for i in range(cfg['n_snow'])]


def seed_of(uid, name, cfg):
    k = sum(ord(c) for c in name) % 17
    v = {'x': uid + k * 1., 'y': uid * .5, 'z': k - uid * 1.,
         'zenith': (uid % 6) / 2., 'azimuth': (uid + k) % 6 * 1.,
         'energy': 10. * (uid % 12 + 1), 'time': uid * 3. + k,
         'gain': 1. / (1 + uid % 4)}
    return v


def filter_values(uid, cfg):
    return {'quality': (uid * 5) % 10 / 10., 'count': float(uid % 4)}


def filter_vector(uid, cfg):
    return [uid % 6 * 1., (uid * 3 + 1) % 7 * 1.]


OPS = {'>': lambda a, b: a > b, '>=': lambda a, b: a >= b,
       '<': lambda a, b: a < b, '<=': lambda a, b: a <= b,
       '==': lambda a, b: a == b}


def passes(uid, cfg):
    for key, col, op, thr in cfg.get('constraints') or ():
        if isinstance(col, int):
            v = filter_vector(uid, cfg)[col]
        elif key == LABELS:
            v = labels_of(uid, cfg)[col]
        else:
            v = filter_values(uid, cfg)[col]
        if not OPS[op](v, thr):
            return False
    return True


# --------------------------------------------------------------- expected --
def extension(energy, eps=1e-6):
    """Distance between the vertex and the shower maximum."""
    l_rad = 0.358 / 0.9216
    a = 2.01849 + 0.63176 * math.log(energy + eps)
    return max(0., (a - 1.) / (l_rad / 0.63207) * l_rad)


def direction(zenith, azimuth):
    return (-math.sin(zenith) * math.cos(azimuth),
            -math.sin(zenith) * math.sin(azimuth), -math.cos(zenith))


def expected_label(uid, cfg):
    v = labels_of(uid, cfg)
    kind = cfg['label']
    cas = ['cascade_x', 'cascade_y', 'cascade_z', 'cascade_zenith',
           'cascade_azimuth']
    if kind == 'dummy':
        return None
    if kind == 'muons':
        n = cfg['n_cascades']
        return [v[k] for k in cas] + [v['cascade_t']] + \
            [max(100., v['cascade_energy'] / n)] * n
    if kind in ('cascades', 'snow_cascades'):
        v = dict(v)
        if cfg.get('shift'):
            d = extension(v['cascade_energy'])
            e = direction(v['cascade_zenith'], v['cascade_azimuth'])
            for k, s in zip('xyz', e):
                v['cascade_' + k] += s * d
            v['cascade_t'] += d / C
        out = [v[k] for k in cas] + [v['cascade_energy'], v['cascade_t']]
        if kind == 'cascades':
            return out
        out += [v[k] for k in cfg.get('extra', ())]
    elif kind == 'snow_segment':
        out = [v[k] for k in (
            'track_anchor_x', 'track_anchor_y', 'track_anchor_z', 'zenith',
            'azimuth', 'track_energy', 'track_anchor_time',
            'track_distance_end', 'track_stochasticity')]
    elif kind == 'snow_tracks':
        v = dict(v)
        n = cfg['n_cascades']
        names = ['zenith', 'azimuth', 'track_anchor_x', 'track_anchor_y',
                 'track_anchor_z', 'track_anchor_time', 'track_energy',
                 'track_distance_start', 'track_distance_end',
                 'track_stochasticity']
        if n >= 1:
            names.append('cascade_0000_energy')
        for i in range(1, n):
            names += ['cascade_%04d_energy' % i, 'cascade_%04d_distance' % i]
        if cfg.get('shift') and n >= 1:
            d = extension(v['cascade_0000_energy'])
            e = direction(v['zenith'], v['azimuth'])
            for k, s in zip('xyz', e):
                v['track_anchor_' + k] += s * d
            v['track_anchor_time'] += d / C
            v['track_distance_start'] -= d
            v['track_distance_end'] -= d
            for i in range(1, n):
                v['cascade_%04d_distance' % i] += \
                    extension(v['cascade_%04d_energy' % i]) - d
        out = [v[k] for k in names]
    return out + (snow_of(uid, cfg) if cfg.get('snow_key')
                  else [1.] * cfg['n_snow'])


def expected_event(uid, cfg, missing=()):
    """Every tensor of one event as lists; None for tensors not existing.

    missing: tables that are absent from the file.
    Vector tensors: (values, ids without the event index).
    """
    fp = np.dtype(cfg['float']).type
    charge = np.zeros((86, 60, 1), dtype=fp)
    pulses = [p for p in pulses_of(uid, cfg) if p[1] <= 60]
    rows = []
    t_min, t_max = float('inf'), -float('inf')
    for s, d, t, w, q in pulses:
        charge[s - 1, d - 1, 0] += fp(q)
        rows.append(([q, t] + ([float(charge[s - 1, d - 1, 0])]
                               if cfg['quant'] else []), (s - 1, d - 1)))
        t_min, t_max = min(t, t_min), max(t, t_max)
    if cfg['quant']:
        for v, (s, d) in rows:
            v[2] = fp(v[2]) / charge[s, d, 0]
    excl = None
    if cfg['dom_key']:
        excl = np.array(detector.bad_doms_mask, dtype=bool).reshape(86, 60, 1)
        excl = excl.copy()
        if 'dom' not in missing:
            for s, d in excluded_of(uid, cfg):
                if d <= 60:
                    excl[s - 1, d - 1, 0] = False
        if cfg['discard'] and ('dom' not in missing or
                               'discard' in missing):
            rows = [r for r in rows if excl[r[1][0], r[1][1], 0]]
    out = {'x_dom_charge': charge, 'x_dom_exclusions': excl,
           'x_pulses': [r[0] for r in rows],
           'x_pulses_ids': [r[1] for r in rows],
           'x_time_window': [t_min, t_max],
           'x_time_exclusions': None, 'x_time_exclusions_ids': None}
    if cfg['tw_key']:
        tw = [] if 'tw' in missing else [
            w for w in windows_of(uid, cfg) if w[1] <= 60]
        out['x_time_exclusions'] = [[w[2], w[3]] for w in tw]
        out['x_time_exclusions_ids'] = [(w[0] - 1, w[1] - 1) for w in tw]
    lab = expected_label(uid, cfg)
    if lab is not None:
        out['x_parameters'] = lab
    for name in cfg['seeds']:
        s = seed_of(uid, name, cfg)
        out[name] = []
        for p in cfg['seed_params']:
            if p in cfg['seed_columns']:
                out[name].append(s[p])
            else:
                out[name].append(cfg['missing_dict'].get(
                    p, cfg['missing_value']))
    return out


# ------------------------------------------------------------- hdf tables --
ID = ['Run', 'Event', 'SubEvent', 'SubEventStream']
ID_TYPES = ['uint32', 'uint32', 'uint32', 'int32']


def _table(rows, names, types):
    cols = {}
    for i, (n, t) in enumerate(zip(names, types)):
        cols[n] = np.array([r[i] for r in rows], dtype=t)
    return pd.DataFrame(cols)


def _riffle(rows):
    """Interleave the rows of the events, keeping the order of each one."""
    seen, rank = {}, []
    for r in rows:
        seen[r[:4]] = seen.get(r[:4], 0) + 1
        rank.append(seen[r[:4]])
    return [rows[i] for i in sorted(
        range(len(rows)), key=lambda i: (rank[i], rows[i][:4]))]


def tables(uids, cfg, f):
    """name -> DataFrame of one file."""
    out = {}
    order = _riffle if f.get('riffle') else (lambda r: r)

    def add(key, rows, names, types, exists=True):
        rows = [r[:4] + (1,) + r[4:] for r in rows]
        out[key] = _table(rows, ID + ['exists'] + names,
                          ID_TYPES + ['uint8'] + types)
    rows = [event_id(u) + p[:2] + (0, j) + p[2:] for u in uids
            for j, p in enumerate(pulses_of(u, cfg))]
    vec = ['string', 'om', 'pmt', 'vector_index']
    vt = ['int32', 'uint32', 'uint32', 'uint64']
    add('Pulses', order(rows), vec + ['time', 'width', 'charge'],
        vt + ['float64'] * 3)
    rows = [event_id(u) + w[:2] + (0, j) + w[2:] for u in uids
            for j, w in enumerate(windows_of(u, cfg))]
    add('Windows', order(rows), vec + ['start', 'stop'],
        vt + ['float64'] * 2)
    rows = [event_id(u) + (j, d[0], d[1]) for u in uids
            for j, d in enumerate(excluded_of(u, cfg))]
    add('BadDoms', order(rows), ['vector_index', 'string', 'om'],
        ['uint64', 'int32', 'uint32'])
    names = sorted(labels_of(0, cfg))
    rows = [event_id(u) + tuple(labels_of(u, cfg)[k] for k in names)
            for u in uids]
    add(LABELS, rows, names, ['float64'] * len(names))
    if cfg.get('label_key', LABELS) != LABELS:
        out[cfg['label_key']] = out[LABELS].copy()
        drop = [n for n in names if n.endswith('_x')]
        out[LABELS] = out[LABELS].drop(columns=drop)
    rows = [event_id(u) + (i, x) for u in uids
            for i, x in enumerate(snow_of(u, cfg))]
    add('Snow', rows, ['vector_index', 'item'], ['uint64', 'float64'])
    for s in cfg['seeds']:
        names = sorted(cfg['seed_columns'])
        rows = [event_id(u) + tuple(seed_of(u, s, cfg)[k] for k in names)
                for u in uids]
        add(s, rows, names, ['float64'] * len(names))
    names = sorted(filter_values(0, cfg))
    rows = [event_id(u) + tuple(filter_values(u, cfg)[k] for k in names)
            for u in uids]
    add('Quality', rows, names, ['float64'] * len(names))
    rows = [event_id(u) + (i, x) for u in uids
            for i, x in enumerate(filter_vector(u, cfg))]
    add('Vector', rows, ['vector_index', 'item'], ['uint64', 'float64'])
    for what in f.get('missing', ()):
        out.pop(table_of(what, cfg), None)
    for what, n in sorted(f.get('truncated', {}).items()):
        key = table_of(what, cfg)
        if key in out:
            out[key] = out[key].iloc[:n].copy()
    return out


def table_of(what, cfg):
    return {'pulses': 'Pulses', 'dom': 'BadDoms', 'tw': 'Windows',
            'labels': LABELS, 'label': cfg.get('label_key', LABELS),
            'snow': 'Snow', 'quality': 'Quality', 'vector': 'Vector'
            }.get(what, what)


def frame_of(uid, cfg, f):
    """The same event as an I3Frame-like dictionary."""
    out = {}

    def series(rows, make):
        m = {}
        for r in rows:
            m.setdefault(OMKey(r[:2]), []).append(make(r))
        return m
    p = series(pulses_of(uid, cfg),
               lambda r: _Obj(time=r[2], width=r[3], charge=r[4]))
    kind = f.get('mask')
    if kind:
        out['AllPulses'] = p
        cls = I3RecoPulseSeriesMapMask if kind == 1 else \
            I3RecoPulseSeriesMapUnion
        out['Pulses'] = cls(source='AllPulses', fail=f.get('bad_mask'))
    else:
        out['Pulses'] = p
    out['Windows'] = series(windows_of(uid, cfg),
                            lambda r: _Obj(start=r[2], stop=r[3]))
    out['BadDoms'] = [OMKey(d) for d in excluded_of(uid, cfg)]
    out[cfg.get('label_key', LABELS)] = I3MapStringDouble(
        labels_of(uid, cfg))
    out.setdefault(LABELS, I3MapStringDouble(labels_of(uid, cfg)))
    out['Snow'] = snow_of(uid, cfg)
    for s in cfg['seeds']:
        v = {k: x for k, x in seed_of(uid, s, cfg).items()
             if k in cfg['seed_columns']}
        if f.get('particles') and set('xyz') | {'zenith', 'azimuth'} <= \
                set(v):
            o = I3Particle(pos=_Obj(**{k: v.pop(k) for k in 'xyz'}),
                           dir=_Obj(zenith=v.pop('zenith'),
                                    azimuth=v.pop('azimuth')))
            o.__dict__.update(v)
            out[s] = o
        else:
            out[s] = I3MapStringDouble(v)
    q = filter_values(uid, cfg)
    out['Quality'] = _Obj(**q) if f.get('particles') else \
        I3MapStringDouble(q)
    out['Vector'] = filter_vector(uid, cfg)
    for what in f.get('missing', ()):
        out.pop(table_of(what, cfg), None)
    return out


# ------------------------------------------------------- simulated access --
class Interrupted(BaseException):
    """The user interrupts the program."""


ERRORS = {
    'io': lambda: OSError(5, 'Input/output error'),
    'blosc': lambda: RuntimeError('Blosc decompression error'),
    'memory': lambda: MemoryError('Unable to allocate 3 GiB'),
    'corrupt': lambda: ValueError('The file is corrupt'),
    'interrupt': lambda: Interrupted(),
}


class Disk(object):
    """All hdf files, who has them open, and the fault of this operation."""

    def __init__(self):
        self.reset()

    def reset(self):
        self.files = {}       # path -> dict of tables
        self.open = []
        self.n = 0
        self.fault = None     # {'at': k, 'type': ..}
        self.hook = None      # called before every operation
        self.exists = None
        self.fired = {}
        self.trace = []

    def op(self, what, path=None):
        if self.hook is not None:
            self.hook(what, path)
        self.trace.append(what)
        self.n += 1
        f = self.fault
        if f is not None and not f.get('done') and self.n == f['at']:
            f['done'] = True
            name = '%s %s' % (f['type'], what.split()[0])
            self.fired[name] = self.fired.get(name, 0) + 1
            raise ERRORS[f['type']]()


DISK = Disk()
_real_store = pd.HDFStore
_real_read_hdf = pd.read_hdf


class SimHDFStore(object):

    def __init__(self, path, mode='a', *args, **kwargs):
        self.path = str(path)
        self.is_open = False
        if mode != 'r':
            raise K.HarnessError('hdf file opened for writing')
        DISK.op('open', self.path)
        if self.path not in DISK.files or (
                DISK.exists is not None and not DISK.exists(self.path)):
            raise OSError('``%s`` does not exist' % path)
        self.tables = DISK.files[self.path]
        self.is_open = True
        DISK.open.append(self)

    def close(self):
        self.is_open = False
        if self in DISK.open:
            DISK.open.remove(self)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def _key(self, key):
        if not self.is_open:
            raise OSError('file is closed')     # ClosedFileError
        return str(key).strip('/')

    def __contains__(self, key):
        return self._key(key) in self.tables

    def keys(self):
        return ['/' + k for k in self.tables]

    def get(self, key):
        key = self._key(key)
        DISK.op('read ' + key, self.path)
        if key not in self.tables:
            raise KeyError('No object named %s in the file' % key)
        return self.tables[key].copy()

    __getitem__ = get

    def select(self, key, *a, **k):
        return self.get(key)


def read_hdf(path, key=None, mode='r', *a, **k):
    with SimHDFStore(path, 'r') as f:
        return f.get(key)


class access(object):
    """Reading of hdf files goes to the simulated disk."""

    def __enter__(self):
        pd.HDFStore = SimHDFStore
        pd.read_hdf = read_hdf
        DISK.reset()
        return DISK

    def __exit__(self, *a):
        pd.HDFStore = _real_store
        pd.read_hdf = _real_read_hdf
        DISK.reset()


class SimFrame(dict):

    def __getitem__(self, key):
        DISK.op('frame ' + str(key))
        return dict.__getitem__(self, key)


# ----------------------------------------------------------------- handler --
def settings(cfg):
    fp = cfg['float']
    label = {}
    if cfg['label'] != 'dummy':
        label = {'float_precision': fp, 'trafo_log': False}
        if cfg.get('label_key'):
            label['label_key'] = cfg['label_key']
        else:
            label['label_key'] = LABELS
        if cfg['label'] in ('cascades', 'snow_cascades', 'snow_tracks'):
            label['shift_cascade_vertex'] = bool(cfg.get('shift'))
        if cfg['label'] in ('muons', 'snow_tracks'):
            label['num_cascades'] = cfg['n_cascades']
        if cfg['label'].startswith('snow'):
            label['snowstorm_key'] = cfg.get('snow_key')
            label['num_snowstorm_params'] = cfg['n_snow']
        if cfg['label'] == 'snow_cascades' and cfg.get('extra'):
            label['additional_labels'] = list(cfg['extra'])
    misc, misc_set = 'dummy.DummyMiscModule', {}
    if cfg['seeds']:
        misc = 'seed_loader.SeedLoaderMiscModule'
        misc_set = {'seed_names': list(cfg['seeds']),
                    'seed_parameter_names': list(cfg['seed_params']),
                    'float_precision': fp,
                    'missing_value': cfg['missing_value'],
                    'missing_value_dict': dict(cfg['missing_dict'])}
    filt, filt_set = 'dummy.DummyFilterModule', {}
    if cfg.get('constraints') is not None:
        filt = 'general_filter.GeneralFilterModule'
        filt_set = {'constraints': [list(c) for c in cfg['constraints']]}
    return {
        'data_module': 'pulse_data.PulseDataModule',
        'data_settings': {
            'pulse_key': 'Pulses', 'dom_exclusions_key': cfg['dom_key'],
            'time_exclusions_key': cfg['tw_key'], 'float_precision': fp,
            'add_charge_quantiles': bool(cfg['quant']),
            'discard_pulses_from_excluded_doms': bool(cfg['discard'])},
        'label_module': CLASSES[cfg['label']], 'label_settings': label,
        'weight_module': 'dummy.DummyWeightModule', 'weight_settings': {},
        'misc_module': misc, 'misc_settings': misc_set,
        'filter_module': filt, 'filter_settings': filt_set,
    }


def make_handler(cfg, cls=ModuleDataHandler):
    h = cls()
    h.configure(config=settings(cfg))
    return h


def gen_config(rng, label=True):
    kinds = KINDS[:-1] if label else KINDS
    cfg = {'float': rng.choice(['float32', 'float32', 'float64']),
           'quant': rng.random() < .4, 'salt': rng.randrange(5),
           'dom_key': 'BadDoms' if rng.random() < .5 else None,
           'tw_key': 'Windows' if rng.random() < .5 else None,
           'discard': rng.random() < .4,
           'label': rng.choice(kinds), 'n_snow': rng.choice([0, 1, 3]),
           'snow_key': rng.choice(['Snow', 'Snow', None]),
           'shift': rng.random() < .4, 'n_cascades': rng.choice([1, 2, 4]),
           'seeds': [], 'seed_params': [], 'seed_columns': SEED_PARAMS,
           'missing_value': None, 'missing_dict': {}}
    if cfg['label'] == 'snow_tracks' and rng.random() < .2:
        cfg['n_cascades'] = 0
    if rng.random() < .2:
        cfg['label_key'] = 'OtherLabels'
    if cfg['label'] == 'snow_cascades' and rng.random() < .4:
        cfg['extra'] = rng.choice([['extra_a'], ['extra_b', 'extra_a']])
    if rng.random() < .3:
        cfg['icetop'] = True
    if rng.random() < .25:
        cfg['sparse'] = True
    if rng.random() < .6:
        cfg['seeds'] = rng.choice([['SeedA'], ['SeedA', 'SeedB'],
                                   ['SeedB', 'SeedC', 'SeedA']])
        cfg['seed_params'] = rng.sample(SEED_PARAMS, rng.randint(1, 8))
        if rng.random() < .5:
            cfg['seed_columns'] = [p for p in SEED_PARAMS
                                   if rng.random() < .7] or ['x']
            gone = [p for p in cfg['seed_params']
                    if p not in cfg['seed_columns']]
            cfg['missing_dict'] = {p: 100. + i for i, p in enumerate(gone)
                                   if rng.random() < .5}
            if any(p not in cfg['missing_dict'] for p in gone) or \
                    rng.random() < .2:
                cfg['missing_value'] = rng.choice([0., 1., -7.5])
    if rng.random() < .5:
        cfg['constraints'] = []
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            x = rng.random()
            if x < .4:
                c = ['Quality', 'quality', rng.choice(['>', '>=', '<', '<=']),
                     rng.choice([.1, .3, .5, .8])]
            elif x < .6:
                c = ['Quality', 'count', rng.choice(sorted(OPS)),
                     float(rng.randrange(4))]
            elif x < .85:
                c = ['Vector', rng.randrange(2), rng.choice(sorted(OPS)),
                     float(rng.randrange(6))]
            else:
                c = [LABELS, 'cascade_energy', '>', 300.]
            cfg['constraints'].append(c)
    return cfg


# ------------------------------------------------------------------ check --
def check_events(data, n, tensors, uids, cfg, fail, missing=(),
                 scalars=False, dtype=False, placeholders=False):
    """data holds exactly these events, in this order.

    missing: the absent tables of all events or of each one (dict).
    """
    if n != len(uids):
        fail('events', 'says %r events, expected %d' % (n, len(uids)))
    want = [expected_event(u, cfg, missing[u] if isinstance(missing, dict)
                           else missing) for u in uids]
    if len(data) != tensors.len:
        fail('malformed', '%d entries for %d tensors' % (
            len(data), tensors.len))
    tol = 1e-5 if cfg['float'] == 'float32' else 1e-10
    for i, t in enumerate(tensors.list):
        got = data[i]
        if t.name not in want[0] if want else False:
            fail('malformed', 'unknown tensor %r' % t.name)
        if not t.exists:
            if placeholders:
                continue
            if got is not None and not (scalars and np.ndim(got) == 0):
                fail('malformed', '%s does not exist but is %r' % (
                    t.name, got))
            continue
        got = np.asarray(got.numpy() if hasattr(got, 'numpy') else got)
        if dtype and got.dtype != np.dtype(t.dtype):
            fail('dtype', '%s is %s, declared %s' % (t.name, got.dtype,
                                                     t.dtype))
        if got.ndim != len(t.shape) or any(
                s is not None and s != g for s, g in zip(t.shape, got.shape)):
            fail('shape', '%s has shape %r, declared %r' % (
                t.name, got.shape, t.shape))
        if t.vector_info is None:
            if len(got) != len(uids):
                fail('malformed', '%s has %d rows for %d events' % (
                    t.name, len(got), len(uids)))
            for j, u in enumerate(uids):
                w = np.asarray(want[j][t.name]).astype(got.dtype)
                g = got[j]
                if t.name == 'x_parameters':
                    ok = np.allclose(g, w, rtol=tol, atol=tol)
                else:
                    ok = np.array_equal(g, w)
                if not ok:
                    bad = np.argwhere(np.ravel(g) != np.ravel(w))[:3, 0]
                    fail('content', '%s of event %d (row %d): entries %r are '
                         '%r, expected %r' % (
                             t.name, u, j, bad.tolist(),
                             np.ravel(g)[bad].tolist(),
                             np.ravel(w)[bad].tolist()))
        elif t.vector_info['type'] == 'index':
            vname = t.vector_info['reference']
            val = data[tensors.get_index(vname)]
            val = np.asarray(val.numpy() if hasattr(val, 'numpy') else val)
            if len(val) != len(got):
                fail('malformed', '%s has %d entries, %s has %d' % (
                    vname, len(val), t.name, len(got)))
            total = 0
            for j, u in enumerate(uids):
                m = got[:, 0] == j
                total += int(m.sum())
                wi = [tuple(x) for x in want[j][t.name]]
                gi = [tuple(x) for x in got[m][:, 1:].tolist()]
                wv = np.array(want[j][vname]).astype(val.dtype).reshape(
                    len(wi), val.shape[1])
                if gi != wi or not np.array_equal(val[m], wv):
                    fail('content', '%s of event %d (row %d): %r %r, '
                         'expected %r %r' % (
                             vname, u, j, gi[:4], val[m].tolist()[:4],
                             wi[:4], wv.tolist()[:4]))
            if total != len(got):
                fail('content', '%d entries of %s belong to no event' % (
                    len(got) - total, t.name))
