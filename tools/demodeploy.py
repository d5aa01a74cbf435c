"""Trained sources whose best fit is known, a stub of icetray and a handler
whose events are given."""
import types

from demolib import *
import egenerator.data.trafo as trafo_module
from egenerator.manager.source import SourceManager

trafo_module.tqdm = lambda x: x
NAMES = ['a', 'b', 'zenith', 'azimuth']
N = len(NAMES)


class EventHandler(BaseComponent):
    """Events are (target, seed_a, seed_b) arrays of N numbers."""

    @property
    def tensors(self):
        return self.data['tensors'] if self.data is not None else None

    def _configure(self, config):
        t = [DataTensor(n, [None, N], 'label' if n == 'x_parameters' else
                        'misc', 'float32', trafo=True,
                        trafo_log=None if n != 'x_parameters' else
                        [False] * N,
                        trafo_reference=None if n == 'x_parameters' else
                        'x_parameters')
             for n in ('seed_a', 'seed_b', 'target', 'x_parameters')]
        return Configuration(
            class_string=misc.get_full_class_string_of_object(self),
            settings=dict(config=config)), {'tensors': DataTensorList(t)}, {}

    def batch(self, target, seed_a, seed_b, truth=None):
        d = {'target': target, 'seed_a': seed_a, 'seed_b': seed_b,
             'x_parameters': target if truth is None else truth}
        return tuple(tf.constant(np.array([d[t.name]], dtype='float32'))
                     for t in self.tensors.list)

    def get_data_set_signature(self):
        return tuple(tf.TensorSpec([None, N], tf.float32)
                     for t in self.tensors.list)

    def get_data_from_frame(self, frame):
        return 1, self.batch(*frame['event'])

    def get_batch_generator(self, **settings):
        if settings.get('stat'):
            return iter([[np.array([[-3.] * N, [5.] * N], dtype='float32')
                          for t in self.tensors.list]] * 9)
        return iter([self.batch(*e) for e in settings['events']])

    def kill(self):
        pass


class QuadraticSource(Source):
    """loss = sum_j (1 + j) (x_j - factor * target_j)^2"""

    def _build_architecture(self, config, name=None):
        self._untracked_data['w'] = tf.Variable(np.float32(config['factor']))
        return list(NAMES)

    def get_tensors(self, data_batch_dict, is_training,
                    parameter_tensor_name='x_parameters'):
        if FAIL[0]:
            tf.numpy_function(fail, [], tf.float32)
        return {'terms': (1. + tf.range(N, dtype=tf.float32)) * (
            data_batch_dict[parameter_tensor_name] -
            self._untracked_data['w'] * data_batch_dict['target']) ** 2}


FAIL = [None]


def fail():
    raise ValueError('the loss fails')


class QuadraticLoss(TinyLoss):

    def get_loss(self, data_batch_dict, result_tensors, tensors, model=None,
                 parameter_tensor_name='x_parameters', reduce_to_scalar=True,
                 **kwargs):
        t = result_tensors['terms']
        return tf.reduce_sum(t) if reduce_to_scalar else [t]


def source_manager(factors=(1.,)):
    h = EventHandler()
    h.configure(config={})
    t = DataTransformer()
    t.configure(data_handler=h, data_iterator_settings={'stat': True},
                num_batches=2)
    models = []
    for f in factors:
        m = QuadraticSource()
        m.configure(config={'factor': f}, data_trafo=t)
        models.append(m)
    manager = SourceManager()
    manager.configure(config={'I3ParticleMapping': {
        'zenith': 'zenith', 'azimuth': 'azimuth'}}, data_handler=h,
        models=models)
    return manager


def loss_module():
    loss = QuadraticLoss()
    loss.configure(config={})
    return loss


# ------------------------------------------------------------- icetray ----
class Module(object):

    def __init__(self, context):
        self.given, self.pushed, self.parameters = dict(context), [], {}

    def AddOutBox(self, name):
        pass

    def AddParameter(self, name, text, default=None):
        self.parameters[name] = default

    def GetParameter(self, name):
        return self.given.get(name, self.parameters[name])

    def PushFrame(self, frame):
        self.pushed.append(frame)


class Particle(object):
    InfiniteTrack = 1

    def __init__(self):
        self.pos = types.SimpleNamespace()


def _install():
    icecube = types.ModuleType('icecube')
    d = types.ModuleType('icecube.dataclasses')
    i = types.ModuleType('icecube.icetray')
    d.I3MapStringDouble = dict
    d.I3Particle = Particle
    d.I3Direction = lambda zenith, azimuth: types.SimpleNamespace(
        zenith=zenith, azimuth=azimuth)
    i.I3ConditionalModule = Module
    icecube.dataclasses, icecube.icetray = d, i
    sys.modules.update({'icecube': icecube, 'icecube.dataclasses': d,
                        'icecube.icetray': i})


def module(factors=(1.,), **settings):
    """The icetray module, deployed."""
    _install()
    from egenerator.ic3 import reconstruction
    manager = source_manager(factors)
    reconstruction.ManagerConfigurator = lambda **kw: types.SimpleNamespace(
        manager=manager, loss_module=loss_module(), config={})
    args = dict(model_names='m', model_base_dir='/nowhere', seed_keys=[
        'seed_a', 'seed_b'], output_key='out', pulse_key='p',
        scipy_optimizer_settings={'method': 'BFGS'})
    args.update(settings)
    m = reconstruction.EventGeneratorReconstruction(args)
    out, sys.stdout = sys.stdout, open(os.devnull, 'w')
    try:
        m.Configure()
    finally:
        sys.stdout = out
    return m


class Frame(dict):

    def __setitem__(self, key, value):
        if key in self:
            raise RuntimeError('frame already has %r' % key)
        dict.__setitem__(self, key, value)


def physics(m, target, seed_a, seed_b):
    frame = Frame({'event': (target, seed_a, seed_b)})
    out, sys.stdout = sys.stdout, open(os.devnull, 'w')
    try:
        m.Physics(frame)
    finally:
        sys.stdout = out
    return frame


def fit_of(frame):
    return [frame['out'][n] for n in NAMES]


def near(a, b, tol=.02):
    return np.allclose(a, b, atol=tol)


# ------------------------------------------------- reconstruct_testdata ----
def reconstruct(manager, events, path, seed=('seed_a', 'seed_b'), **kw):
    import pandas as pd
    reco = {
        'reco_output_file': path, 'calculate_covariance_matrix': False,
        'estimate_angular_uncertainty': False,
        'calculate_goodness_of_fit': False, 'run_mcmc': False,
        'make_1d_llh_scans': False, 'parameter_tensor_name': 'x_parameters',
        'seed': list(seed), 'reco_optimizer_interface': 'scipy',
        'scipy_optimizer_settings': {'method': 'BFGS'},
        'tf_optimizer_settings': {}, 'minimize_in_trafo_space': True,
        'minimize_parameter_default_value': True,
        'minimize_parameter_dict': {}}
    reco.update(kw)
    out, sys.stdout = sys.stdout, open(os.devnull, 'w')
    try:
        manager.reconstruct_testdata({
            'reconstruction_settings': reco,
            'data_iterator_settings': {'test': {'events': events}}},
            loss_module())
    finally:
        sys.stdout = out
    return pd.read_hdf(path, key='Variables')
