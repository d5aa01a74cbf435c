"""Small real components, models and sources used by the storage simulations.

They are importable by their class string, as loading requires.
"""
from . import env
env.setup()

import numpy as np
import tensorflow as tf

from egenerator import misc
from egenerator.manager.component import BaseComponent, Configuration
from egenerator.model.base import Model


class TinyModel(Model):
    """A model with a few variables of different kinds."""

    def _configure_derived_class(self, config):
        n = config.get('n', 2)
        self._untracked_data['var'] = tf.Variable(
            np.zeros(n, dtype='float32'), name='var')
        self._untracked_data['aux'] = tf.Variable(
            np.int64(0), trainable=False, name='aux')
        return Configuration(
            class_string=misc.get_full_class_string_of_object(self),
            settings=dict(config=config)), {'n': n}, {}


def set_weights(model, tag):
    """Give a model weights and a step counter nobody else has."""
    u = model.untracked_data
    n = u['var'].shape[0]
    u['var'].assign(np.arange(n, dtype='float32') + tag)
    u['aux'].assign(tag * 7)
    u['step'].assign(tag * 3 + 1)


def weights(model):
    u = model.untracked_data
    return (tuple(float(x) for x in u['var'].numpy()),
            int(u['aux'].numpy()), int(u['step'].numpy()))


def clear(model):
    u = model.untracked_data
    u['var'].assign(np.full(u['var'].shape, -1, dtype='float32'))
    u['aux'].assign(-1)
    u['step'].assign(-1)


SALT = [0]


class TinyComponent(BaseComponent):
    """A component with settings, mutable settings, data and children."""

    def _configure(self, config, mut=None, children=None, loose=()):
        settings = dict(config=config, loose=loose)
        data = None
        if config.get('data'):
            data = make_data(config['data'], SALT[0])
        check = {}
        if config.get('check') is not None:
            check['check'] = config['check']
        conf = Configuration(
            class_string=misc.get_full_class_string_of_object(self),
            settings=settings, mutable_settings=dict(mut=mut),
            check_values=check, mutable_sub_components=list(loose))
        return conf, data, dict(children or {})

    def _update_sub_components(self, names):
        self._untracked_data['updated'] = list(names)


class OtherComponent(TinyComponent):
    """Same behaviour, another class."""


def make_data(size, salt):
    return {'salt': salt, 'array': np.arange(size, dtype='float64') + salt,
            'text': 'data of %d ' % salt * size,
            'nested': {'a': [salt, None, (1, 2)], 2: 'two'}}


def same_data(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return type(a) is type(b) and a.dtype == b.dtype and \
            np.array_equal(a, b)
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same_data(a[k], b[k]) for k in a)
    return type(a) is type(b) and a == b
