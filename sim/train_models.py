"""Small real handlers, sources and losses used by the training simulations.

They are importable by their class string, as loading requires.  All numbers
are small integers or dyadic fractions: float32 arithmetic on them is exact,
so that the weights after every iteration are known exactly.
"""
from . import env
env.setup()

import sys
import types

import numpy as np
import tensorflow as tf

from egenerator import misc
from egenerator.data.tensor import DataTensor, DataTensorList
from egenerator.manager.component import BaseComponent, Configuration
from egenerator.model.source.base import Source
from egenerator.model.multi_source.independent import IndependentMultiSource


class Feed(object):
    """What the handlers hand out in this run, and what became of it."""

    def __init__(self):
        self.count = 0          # batches handed out so far, ever
        self.calls = 0          # batches handed out in this call
        self.fault = None       # {'batch': k, 'type': ...}
        self.trained = []       # values of batches trained on, this call
        self.evaluated = []     # values of batches a loss was computed for
        self.modules = []       # (step, batch) the evaluation module got
        self.kinds = {}         # first value of a batch -> kind
        self.fired = 0
        self.crash = None       # how the process dies

    def call(self, fault=None):
        self.calls = 0
        self.fault = fault
        self.trained = []
        self.evaluated = []
        self.modules = []
        self.kinds = {}
        self.fired = 0

    def next(self, kind):
        self.count += 1
        k = self.calls
        self.calls += 1
        x = np.array([[self.count % 256, 3.], [self.count % 7, 1.]],
                     dtype='float32')
        self.kinds[tuple(x[:, 0])] = kind
        f = self.fault
        if f is not None and k == f['batch']:
            self.fired += 1
            if f['type'] == 'crash':
                self.crash()
            if f['type'] == 'error':
                raise IOError('simulated failure of the input')
            if f['type'] == 'end':
                raise StopIteration()
            x[0, f.get('column', 0)] = {'nan': np.nan, 'inf': np.inf}[
                f['type']]
        return (tf.constant(x),)

    def kind(self, x):
        """Kind of dataset of a batch, None if it was modified."""
        return self.kinds.get(tuple(np.array(x)[:, 0]))

    def seen(self, x, training):
        x = np.array(x)
        if training:
            self.trained.append(x)
        else:
            self.evaluated.append(x)


FEED = [Feed()]


class FakeDataset(object):

    def __init__(self, kind):
        self.kind = kind

    def __iter__(self):
        return FakeIterator(self.kind)


class FakeIterator(object):
    element_spec = (tf.TensorSpec([None, 2], tf.float32),)

    def __init__(self, kind):
        self.kind = kind

    def __iter__(self):
        return self

    def __next__(self):
        return FEED[0].next(self.kind)


class TinyHandler(BaseComponent):
    """Hands out batches of one tensor of small numbers."""

    @property
    def tensors(self):
        return self.data['tensors'] if self.data is not None else None

    def _configure(self, config):
        tensors = DataTensorList([DataTensor(
            'x_parameters', [None, 2], 'label', 'float32', trafo=True)])
        return Configuration(
            class_string=misc.get_full_class_string_of_object(self),
            settings=dict(config=config)), {'tensors': tensors}, {}

    def get_batch_generator(self, **settings):
        while True:
            yield [np.array([[0., 1.], [2., 5.]], dtype='float32') *
                   settings.get('scale', 1.)]

    def get_tf_dataset(self, **settings):
        return FakeDataset(settings.get('kind'))

    def kill(self):
        pass


def add(total, x):
    return x if total is None else total + x


class TinySource(Source):
    """loss = factor * sum_j w_j * sum_i x_ij: its gradient is known."""

    def _build_architecture(self, config, name=None):
        self._untracked_data['w'] = tf.Variable(
            np.zeros(2, dtype='float32'), name='w')
        self._untracked_data['aux'] = tf.Variable(
            np.int64(0), trainable=False, name='aux')
        return ['a', 'b']

    def partial(self, x):
        factor = self.configuration.config['config']['factor']
        return factor * tf.reduce_sum(
            self._untracked_data['w'] * tf.reduce_sum(x, axis=0))

    def get_tensors(self, data_batch_dict, is_training,
                    parameter_tensor_name='x_parameters'):
        x = data_batch_dict[parameter_tensor_name]
        look(x, is_training)
        return {'loss': self.partial(x)}


def look(x, is_training):
    if tf.executing_eagerly():
        FEED[0].seen(x.numpy(), bool(is_training))
    else:
        def f(v):
            FEED[0].seen(v, bool(is_training))
            return np.int64(0)
        tf.numpy_function(f, [x], tf.int64)


class TinyMulti(IndependentMultiSource):
    """A sum of sources."""

    def get_tensors(self, data_batch_dict, is_training,
                    parameter_tensor_name='x_parameters'):
        x = data_batch_dict[parameter_tensor_name]
        look(x, is_training)
        total = None
        for name, base in sorted(self._untracked_data['sources'].items()):
            total = add(total, self.sub_components[base].partial(x))
        return {'loss': total}


class TinyLoss(BaseComponent):

    def _configure(self, config):
        return Configuration(
            class_string=misc.get_full_class_string_of_object(self),
            settings=dict(config=config)), {}, {}

    def get_loss(self, data_batch_dict, result_tensors, tensors, model=None,
                 parameter_tensor_name='x_parameters', **kwargs):
        return result_tensors['loss']


class TinyEvaluation(BaseComponent):

    def _configure(self, config):
        return Configuration(
            class_string=misc.get_full_class_string_of_object(self),
            settings=dict(config=config)), {}, {}

    def evaluate(self, data_batch, loss_module, tensors, step, writer):
        FEED[0].modules.append((int(step), np.array(data_batch[0])))


def leaves(model):
    """The sources that hold weights, in a fixed order."""
    if isinstance(model, IndependentMultiSource):
        return [model.sub_components[k]
                for k in sorted(model.sub_components)
                if isinstance(model.sub_components[k], Source)]
    return [model]


def state(leaf):
    u = leaf.untracked_data
    return (tuple(float(v) for v in u['w'].numpy()), int(u['aux'].numpy()),
            int(u['step'].numpy()))


def set_state(leaf, tag):
    u = leaf.untracked_data
    u['w'].assign(np.array([tag, -tag * 2], dtype='float32'))
    u['aux'].assign(tag * 7)
    u['step'].assign(tag * 3 + 1)


def clear(leaf):
    u = leaf.untracked_data
    u['w'].assign([-1., -1.])
    u['aux'].assign(-1)
    u['step'].assign(-1)


def install():
    """The build functions look for handlers below egenerator.data.handler."""
    name = 'egenerator.data.handler.sim_tiny'
    if name not in sys.modules:
        m = types.ModuleType(name)
        m.TinyHandler = TinyHandler
        sys.modules[name] = m


install()
