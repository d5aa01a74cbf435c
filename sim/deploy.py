"""A small world for the use of trained models: sources whose best fit is
known for every event, managers of them, and a stub of icetray."""
from . import env
env.setup()

import contextlib
import io
import os
import sys
import types

import numpy as np
import pandas as pd
import ruamel.yaml as yaml
import tensorflow as tf

from . import modsim as M
from .train_models import TinyLoss                       # noqa: F401

from egenerator.data.trafo import DataTransformer
from egenerator.manager.source import SourceManager
from egenerator.model.source.base import Source
import egenerator.data.trafo as trafo_module

trafo_module.tqdm = lambda x: x
# can only be called before TensorFlow is used for the first time; the number
# of threads is fixed in the simulations
tf.config.threading.set_intra_op_parallelism_threads = lambda n: None
tf.config.threading.set_inter_op_parallelism_threads = lambda n: None
NAMES = ['x', 'y', 'z', 'zenith', 'azimuth', 'energy', 'time']
MAPPING = {k: k for k in NAMES}
FAULT = [None]          # called at every evaluation of a source


class DeploySource(Source):
    """loss = sum_ej (1 + j) (x_ej - target_ej)^2.

    The target of an event is a function of its pulses, charges, exclusions
    and of the weight of the source.
    """

    def _build_architecture(self, config, name=None):
        self._untracked_data['w'] = tf.Variable(
            np.float32(config['w']), name='w')
        return list(config['names'])

    def get_tensors(self, data_batch_dict, is_training,
                    parameter_tensor_name='x_parameters'):
        c = self.configuration.config['config']
        x = tf.cast(data_batch_dict[parameter_tensor_name], tf.float32)
        q = tf.reduce_sum(tf.cast(data_batch_dict['x_dom_charge'],
                                  tf.float32), axis=[1, 2, 3])
        n = tf.shape(q)[0]
        p = tf.cast(data_batch_dict['x_pulses'], tf.float32)
        ids = tf.cast(data_batch_dict['x_pulses_ids'], tf.int32)
        om = tf.cast(1 + ids[:, 2] % 2, tf.float32)
        extra = {
            0: tf.math.unsorted_segment_sum(p[:, 0] * om, ids[:, 0], n),
            1: tf.math.unsorted_segment_sum(p[:, 1] / 1024., ids[:, 0], n)}
        if c['dom']:
            e = tf.cast(data_batch_dict['x_dom_exclusions'], tf.float32)
            extra[2] = (5160. - tf.reduce_sum(e, axis=[1, 2, 3])) / 16.
        if c['tw']:
            ids = tf.cast(data_batch_dict['x_time_exclusions_ids'], tf.int32)
            extra[3] = tf.math.unsorted_segment_sum(
                tf.ones_like(ids[:, 0], dtype=tf.float32), ids[:, 0], n) / 2.
        terms = []
        for j in range(len(c['names'])):
            t = q * (1 + j % 3) / 4.
            if j in extra:
                t += extra[j]
            t = 3. + j + self._untracked_data['w'] * t
            terms.append((1. + j) * (x[:, j] - t) ** 2)
        if FAULT[0] is not None:
            def f(v):
                return np.float32(FAULT[0]())
            terms.append(tf.ensure_shape(tf.numpy_function(
                f, [x], tf.float32), []) * tf.ones_like(q))
        return {'terms': tf.stack(terms, axis=1)}


class DeployLoss(TinyLoss):

    def get_loss(self, data_batch_dict, result_tensors, tensors, model=None,
                 parameter_tensor_name='x_parameters', reduce_to_scalar=True,
                 **kwargs):
        loss = result_tensors['terms']
        if reduce_to_scalar:
            return tf.reduce_sum(loss)
        return [loss]


def targets(uid, cfg, ws, missing=()):
    """The targets of one event, one row per source."""
    e = M.expected_event(uid, cfg, missing)
    q = float(np.sum(np.asarray(e['x_dom_charge'], dtype='float64')))
    add = np.zeros(len(names(cfg)))
    for v, i in zip(e['x_pulses'], e['x_pulses_ids']):
        add[0] += v[0] * (1 + i[1] % 2)
        add[1] += v[1] / 1024.
    if cfg['dom_key']:
        add[2] += (5160. - np.sum(np.asarray(e['x_dom_exclusions']))) / 16.
    if cfg['tw_key']:
        add[3] += len(e['x_time_exclusions']) / 2.
    return np.array([[3. + j + w * (q * (1 + j % 3) / 4. + add[j])
                      for j in range(len(add))] for w in ws])


def loss_of(x, t):
    scale = 1. + np.arange(t.shape[1])
    return float(np.sum(scale * (np.asarray(x, dtype='float64') - t) ** 2))


def gen_bounds(rng, cfg):
    out = []
    for n in names(cfg):
        lo = rng.choice([None, None, 0., -5., 6.])
        hi = rng.choice([None, None, 8., 20., 60.])
        out.append([lo, hi])
    return out


def clip(x, bounds):
    if bounds is None:
        return x
    lo = [-np.inf if b[0] is None else b[0] for b in bounds]
    hi = [np.inf if b[1] is None else b[1] for b in bounds]
    return np.clip(x, lo, hi)


def resolution(loss):
    """How well a minimum is seen in a loss of single precision."""
    return 4. * np.sqrt(1.2e-7 * (1. + loss))


def names(cfg):
    return NAMES + ['snow_%d' % i for i in range(
        cfg['n_snow'] if cfg['label'] == 'snow_cascades' else 0)]


def seed_values(uid, name, cfg):
    """The seed of an event as stored in its tensor."""
    return np.asarray(M.expected_event(uid, cfg)[name], dtype='float64')


def gen_world(rng, ensemble=True):
    """Settings of the data handler and the weights of the sources."""
    cfg = M.gen_config(rng)
    cfg['float'] = 'float32'
    cfg['label'] = rng.choice(['cascades', 'cascades', 'snow_cascades'])
    cfg['snow_key'] = 'Snow'
    cfg['n_snow'] = rng.choice([1, 3])
    cfg['n_cascades'] = 1
    cfg['extra'] = []
    cfg['shift'] = False
    cfg['constraints'] = None
    cfg['seeds'] = rng.choice([['SeedA'], ['SeedA', 'SeedB'],
                               ['SeedB', 'SeedA']])
    cfg['seed_params'] = names(cfg)
    cfg['seed_columns'] = list(NAMES)
    cfg['missing_dict'] = {}
    cfg['missing_value'] = rng.choice([0., 1.5]) if len(
        cfg['seed_params']) > len(NAMES) else None
    if rng.random() < .3:
        gone = rng.sample(NAMES, 2)
        cfg['seed_columns'] = [n for n in NAMES if n not in gone]
        cfg['missing_dict'] = {gone[0]: rng.choice([2., -1.])}
        if cfg['missing_value'] is None:
            cfg['missing_value'] = .25
    ws = rng.sample([.25, .5, 1., 1.5], rng.choice(
        [1, 1, 2, 3]) if ensemble else 1)
    return {'cfg': cfg, 'ws': ws}


def gen_fit(rng, cfg):
    """(default value, dictionary) of the parameters to fit."""
    if rng.random() < .5:
        return [True, {}]
    default = rng.random() < .6
    d = {n: rng.random() < .5 for n in rng.sample(
        names(cfg), rng.randint(1, len(names(cfg))))}
    flags = [d.get(n, default) for n in names(cfg)]
    if not any(flags):
        d[rng.choice(names(cfg))] = True
    return [default, d]


def fit_flags(fit, cfg):
    return [bool(fit[1].get(n, fit[0])) for n in names(cfg)]


def stat_batches(handler, cfg):
    """What the transformation is computed from: a few events, fixed."""
    uids = [u for u in range(200, 300) if M.passes(u, cfg)][:6]
    saved = pd.HDFStore, pd.read_hdf
    disk = M.Disk()
    M.DISK, before = disk, M.DISK
    disk.files['stat.hdf'] = M.tables(uids, cfg, {})
    pd.HDFStore, pd.read_hdf = M.SimHDFStore, M.read_hdf
    try:
        n, data = handler.get_data_from_hdf('stat.hdf')
    finally:
        pd.HDFStore, pd.read_hdf = saved
        M.DISK = before
    data = list(data)
    i = handler.tensors.get_index('x_parameters')
    x = np.array(data[i])
    # the best fits shall not be far away in units of the deviations
    data[i] = np.concatenate([
        x, np.full((1, x.shape[1]), 3., dtype=x.dtype),
        np.full((1, x.shape[1]), -40., dtype=x.dtype)])
    return data


def make_trafo(handler, cfg):
    """A transformation whose data is set without reading files."""
    x = stat_batches(handler, cfg)
    t = DataTransformer()

    def batches(*args, **kwargs):
        while True:
            yield list(x)
    saved = type(handler).get_batch_generator
    type(handler).get_batch_generator = lambda self, *a, **k: batches()
    try:
        t.configure(data_handler=handler, data_iterator_settings={},
                    num_batches=2)
    finally:
        type(handler).get_batch_generator = saved
    return t


def make_manager(cfg, ws, directory, init=None):
    """init: value of the weights before they are trained."""
    h = M.make_handler(cfg)
    t = make_trafo(h, cfg)
    models = []
    for w in ws:
        m = DeploySource()
        m.configure(config={'w': w if init is None else init,
                            'names': names(cfg), 'dom': bool(cfg['dom_key']),
                            'tw': bool(cfg['tw_key'])}, data_trafo=t)
        m.untracked_data['w'].assign(w)
        models.append(m)
    manager = SourceManager()
    manager.configure(config={'I3ParticleMapping': dict(MAPPING),
                              'manager_dir': directory},
                      data_handler=h, models=models)
    return manager


def reco_config(cfg, directory, settings=None):
    """The configuration file that goes with a manager."""
    s = settings or {}
    fit = s.get('fit', [True, {}])
    data = M.settings(cfg)
    data['data_handler'] = 'modular.ModuleDataHandler'
    return {
        'unique_name': 'sim',
        'data_handler_settings': data,
        'data_trafo_settings': {'model_dir': 'none'},
        'loss_module_settings': {'loss_module': 'sim.deploy.DeployLoss',
                                 'config': {'l': 1}},
        'model_settings': {'model_class': 'sim.deploy.DeploySource'},
        'model_manager_settings': {
            'model_manager_class':
                'egenerator.manager.source.SourceManager',
            'restore_model': True,
            'config': {'I3ParticleMapping': dict(MAPPING),
                       'manager_dir': directory}},
        'reconstruction_settings': {
            'reco_output_file': s.get('output', 'none'),
            'calculate_covariance_matrix': bool(s.get('cov')),
            'estimate_angular_uncertainty': False,
            'calculate_goodness_of_fit': False,
            'run_mcmc': False, 'make_1d_llh_scans': False,
            'parameter_tensor_name': 'x_parameters',
            'seed': s.get('seed', list(cfg['seeds'])),
            'seed_parameter_names': list(cfg['seed_params']),
            'seed_missing_value': cfg['missing_value'],
            'seed_missing_value_dict': dict(cfg['missing_dict']),
            'seed_float_precision': cfg['float'],
            'reco_optimizer_interface': 'scipy',
            'scipy_optimizer_settings': {'method': 'BFGS'},
            'tf_optimizer_settings': {'method': 'bfgs_minimize',
                                      'x_tolerance': 0.001},
            'minimize_in_trafo_space': bool(s.get('trafo', True)),
            'minimize_parameter_default_value': bool(fit[0]),
            'minimize_parameter_dict': dict(fit[1])},
    }


def write_yaml(path, config):
    with open(path, 'w') as f:
        yaml.dump(config, f, default_flow_style=False)


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


# ------------------------------------------------------------- icetray -----
class I3ConditionalModule(object):

    def __init__(self, context):
        self._parameters = {}
        self._given = dict(context or {})
        self.pushed = []

    def AddOutBox(self, name):
        pass

    def AddParameter(self, name, text, default=None):
        self._parameters[name] = default

    def GetParameter(self, name):
        if name in self._given:
            return self._given[name]
        return self._parameters[name]

    def PushFrame(self, frame):
        self.pushed.append(frame)


class I3Direction(object):

    def __init__(self, zenith, azimuth):
        self.zenith = zenith
        self.azimuth = azimuth


class Position(object):
    x = y = z = float('nan')


def install_icetray():
    d = sys.modules['icecube.dataclasses']
    if hasattr(d, 'I3Direction'):
        return
    d.I3Direction = I3Direction
    d.I3Particle.InfiniteTrack = 'InfiniteTrack'
    init = d.I3Particle.__init__

    def create(self, **kw):
        init(self, **kw)
        self.__dict__.setdefault('pos', Position())
    d.I3Particle.__init__ = create
    d.I3MapKeyDouble = type('I3MapKeyDouble', (dict,), {})
    m = types.ModuleType('icecube.icetray')
    m.I3ConditionalModule = I3ConditionalModule
    m.OMKey = lambda s, o: M.OMKey((s, o))
    sys.modules['icecube.icetray'] = m
    sys.modules['icecube'].icetray = m


install_icetray()
