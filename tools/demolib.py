"""Helpers of the demonstrations: a synthetic handler, tiny components and
models, a time limit, and stand-ins for a crash in file operations."""
import builtins
import contextlib
import logging
import os
import shutil
import signal
import sys
import tempfile
import time


def _supervise():
    """Run the demonstration in a process group of its own and leave none of
    its processes behind."""
    pid = os.fork()
    if pid == 0:
        os.setsid()
        return
    end = time.time() + 250
    status = None
    while time.time() < end:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            status = os.waitstatus_to_exitcode(st)
            break
        time.sleep(.05)
    else:
        print('TIMEOUT')
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
    os._exit(1 if status is None or status < 0 else status)


_supervise()

import numpy as np
import tensorflow as tf

from egenerator import misc
from egenerator.data.handler.base import BaseDataHandler
from egenerator.data.tensor import DataTensor, DataTensorList
from egenerator.manager.component import BaseComponent, Configuration
from egenerator.model.base import Model

logging.disable(logging.CRITICAL)


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix='egdemo_')
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def limit(seconds):
    """The process fails if it is not done in time."""
    def handler(*a):
        print('TIMEOUT')
        sys.stdout.flush()
        os._exit(3)
    signal.signal(signal.SIGALRM, handler)
    signal.alarm(seconds)


def check(cond, msg):
    if not cond:
        print('BROKEN: ' + msg)
        sys.exit(1)


# ------------------------------------------------------------- pipeline ----
class Handler(BaseDataHandler):
    """Files '<k>_<n>.x' hold n events with ids 100 k, 100 k + 1, ..."""

    def _configure_derived_class(self, config, config_data=None):
        tensors = DataTensorList([
            DataTensor(name='uid', shape=[None, 1], tensor_type='label',
                       dtype='int32'),
            DataTensor(name='feat', shape=[None, 2], tensor_type='data',
                       dtype='float32', trafo=True,
                       trafo_log=[False, False]),
            DataTensor(name='hits', shape=[None, 2], tensor_type='data',
                       dtype='float32',
                       vector_info={'type': 'value',
                                    'reference': 'hits_ids'}),
            DataTensor(name='hits_ids', shape=[None, 2], tensor_type='data',
                       dtype='int32',
                       vector_info={'type': 'index', 'reference': 'hits'}),
        ])
        return Configuration(
            class_string=misc.get_full_class_string_of_object(self),
            settings=dict(config=config)), {'tensors': tensors}, {}

    def _get_data_from_hdf(self, file, *args, **kwargs):
        k, n = os.path.basename(file).replace('[', '').replace(
            ']', '').split('.')[0].split('_')[:2]
        hook = LOAD_HOOK[0]
        if hook is not None:
            hook(file)
        return content([100 * int(k) + i for i in range(int(n))],
                       self.configuration.config['config'].get('riffle'))

    def _get_data_from_frame(self, frame, *args, **kwargs):
        raise NotImplementedError

    def _create_data_from_frame(self, frame, *args, **kwargs):
        raise NotImplementedError

    def _write_data_to_frame(self, data, frame, *args, **kwargs):
        raise NotImplementedError


LOAD_HOOK = [None]


def nhits(uid):
    return uid % 3


def content(uids, riffle=False):
    rows = [(i, u, j) for i, u in enumerate(uids) for j in range(nhits(u))]
    if riffle:
        rows.sort(key=lambda r: (r[2], r[0]))
    # in the order of the tensors: feat, hits, hits_ids, uid
    return len(uids), (
        np.array([(u * 2., u % 7) for u in uids],
                 dtype=np.float32).reshape(-1, 2),
        np.array([(u, j) for _, u, j in rows],
                 dtype=np.float32).reshape(-1, 2),
        np.array([(i, j) for i, u, j in rows],
                 dtype=np.int32).reshape(-1, 2),
        np.array(uids, dtype=np.int32).reshape(-1, 1))


def handler(**config):
    h = Handler()
    h.configure(config=config)
    return h


def files(d, *specs, **kw):
    out = []
    for k, n in specs:
        p = os.path.join(d, kw.get('fmt', '{}_{}.x').format(k, n))
        open(p, 'w').close()
        out.append(p)
    return out


def uids(batches):
    return [int(u) for b in batches for u in np.asarray(b[3])[:, 0]]


def check_batch(b):
    """Every event of a batch has exactly its own hits, in order."""
    ids = np.asarray(b[3])[:, 0]
    for row, u in enumerate(ids):
        mine = np.asarray(b[1])[np.asarray(b[2])[:, 0] == row]
        want = [[u, j] for j in range(nhits(u))]
        check(mine.tolist() == want, 'hits of event %d are %r, expected %r'
              % (u, mine.tolist(), want))
    check(len(b[1]) == sum(nhits(u) for u in ids), 'number of hits')


def done(code=0):
    sys.stdout.flush()
    os._exit(code)


# -------------------------------------------------------------- storage ----
class TinyModel(Model):

    def _configure_derived_class(self, config):
        self._untracked_data['var'] = tf.Variable(
            np.zeros(2, dtype='float32'), name='var')
        return Configuration(
            class_string=misc.get_full_class_string_of_object(self),
            settings=dict(config=config)), {'n': 2}, {}


def model():
    m = TinyModel()
    m.configure(config={})
    return m


def put(m, value):
    m.untracked_data['var'].assign([float(value), float(value)])


def got(m):
    return float(m.untracked_data['var'].numpy()[0])


class Tiny(BaseComponent):

    def _configure(self, config, mut=None, data=None, children=None,
                   loose=()):
        conf = Configuration(
            class_string=misc.get_full_class_string_of_object(self),
            settings=dict(config=config, loose=list(loose), data=data),
            mutable_settings=dict(mut=mut),
            mutable_sub_components=list(loose))
        return conf, data, dict(children or {})

    def _update_sub_components(self, names):
        pass


def tiny(config=None, **kw):
    c = Tiny()
    c.configure(config=config or {}, **kw)
    return c


class Crash(BaseException):
    """The process dies here."""


@contextlib.contextmanager
def crash_after(name, count=1):
    """Die right before the count-th call of os.<name> (or open for
    writing), as long as the block lasts."""
    left = [count]

    def wrap(real, hit):
        def call(*a, **kw):
            if hit(*a, **kw):
                left[0] -= 1
                if left[0] == 0:
                    raise Crash()
            return real(*a, **kw)
        return call
    if name == 'open':
        real = builtins.open
        builtins.open = wrap(real, lambda f, mode='r', *a, **k:
                             any(x in mode for x in 'wax+'))
    else:
        real = getattr(os, name)
        setattr(os, name, wrap(real, lambda *a, **k: True))
    try:
        yield
    except Crash:
        pass
    finally:
        if name == 'open':
            builtins.open = real
        else:
            setattr(os, name, real)


# -------------------------------------------------------------- training ----
from egenerator.data.trafo import DataTransformer
from egenerator.manager.base import BaseModelManager
from egenerator.model.source.base import Source


class Iterator(object):
    """Batches of ones; BATCHES[kind] may hold others to hand out first."""
    element_spec = (tf.TensorSpec([None, 2], tf.float32),)

    def __init__(self, kind):
        self.kind = kind

    def __iter__(self):
        return self

    def __next__(self):
        LOG.append(self.kind)
        rest = BATCHES.get(self.kind)
        x = rest.pop(0) if rest else [[1., 1.]]
        return (tf.constant(np.array(x, dtype='float32')),)


LOG = []
BATCHES = {}


class TinyHandler(BaseComponent):

    @property
    def tensors(self):
        return self.data['tensors'] if self.data is not None else None

    def _configure(self, config):
        return Configuration(
            class_string=misc.get_full_class_string_of_object(self),
            settings=dict(config=config)), {'tensors': DataTensorList([
                DataTensor('x_parameters', [None, 2], 'label', 'float32',
                           trafo=True)])}, {}

    def get_batch_generator(self, **settings):
        while True:
            yield [np.array([[0., 1.], [2., 5.]], dtype='float32')]

    def get_tf_dataset(self, kind):
        return Iterator(kind)


class TinySource(Source):
    """The loss is factor * sum(w * x)."""

    def _build_architecture(self, config, name=None):
        self._untracked_data['w'] = tf.Variable([0., 0.])
        return ['a', 'b']

    def get_tensors(self, data_batch_dict, is_training,
                    parameter_tensor_name='x_parameters'):
        x = data_batch_dict[parameter_tensor_name]
        return {'loss': self.configuration.config['config']['factor'] *
                tf.reduce_sum(self._untracked_data['w'] * x)}


class TinyLoss(BaseComponent):

    def _configure(self, config):
        return Configuration(
            class_string=misc.get_full_class_string_of_object(self),
            settings=dict(config=config)), {}, {}

    def get_loss(self, data_batch_dict, result_tensors, tensors, **kwargs):
        return result_tensors['loss']


def fleet(d, factors):
    h = TinyHandler()
    h.configure(config={})
    t = DataTransformer()
    t.configure(data_handler=h, data_iterator_settings={}, num_batches=2)
    models = []
    for f in factors:
        m = TinySource()
        m.configure(config={'factor': f}, data_trafo=t)
        models.append(m)
    manager = BaseModelManager()
    manager.configure(config={'manager_dir': d}, data_handler=h,
                      models=models)
    return manager


def weights(manager):
    return [m.untracked_data['w'].numpy().tolist() for m in manager.models]


def train(manager, n, **settings):
    loss = TinyLoss()
    loss.configure(config={})
    s = {'optimizer_name': 'SGD',
         'optimizer_settings': {'learning_rate': 1.},
         'additional_loss_module_kwargs': {}, 'validation_frequency': 1,
         'evaluation_frequency': 1, 'save_frequency': 100,
         'l1_regularization': 0., 'l2_regularization': 0.}
    s.update(settings)
    out, sys.stdout = sys.stdout, open(os.devnull, 'w')
    try:
        manager.train({'training_settings': s, 'data_iterator_settings': {
            'training': {'kind': 'training'},
            'validation': {'kind': 'validation'}}}, loss, n)
    finally:
        sys.stdout = out
