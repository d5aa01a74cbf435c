"""Managers of tiny sources as the scripts find them."""
import types

from demolib import *
import click
import ruamel.yaml as yaml

import egenerator.data.trafo as trafo_module
from egenerator import create_trafo_model, export_manager
from egenerator.settings import version_control
from egenerator.utils.configurator import ManagerConfigurator

version_control.installed_packages = {}
trafo_module.tqdm = lambda x: x
limit(240)
_m = types.ModuleType('egenerator.data.handler.demo_tiny')
_m.TinyHandler = TinyHandler
sys.modules[_m.__name__] = _m
for _n in ('intra', 'inter'):
    setattr(tf.config.threading, 'set_%s_op_parallelism_threads' % _n,
            lambda n: None)
ASKED = []
ANSWER = [False]


def _confirm(text, **kw):
    ASKED.append(text)
    return ANSWER[0]


click.confirm = _confirm


def shared_trafo(d):
    h = TinyHandler()
    h.configure(config={})
    t = DataTransformer()
    if os.path.exists(d + '/shared'):
        t.load(d + '/shared')
    else:
        t.configure(data_handler=h, data_iterator_settings={}, num_batches=2)
        t.save(d + '/shared')
    return h, t


def trained(d, name, values):
    """A manager of len(values) sources with these weights and its config."""
    h, t = shared_trafo(d)
    models = []
    for v in values:
        m = TinySource()
        m.configure(config={'factor': 1.}, data_trafo=t)
        m.untracked_data['w'].assign([v, v])
        models.append(m)
    manager = BaseModelManager()
    manager.configure(config={'manager_dir': d + '/' + name}, data_handler=h,
                      models=models)
    manager.save(d + '/' + name, overwrite=True)
    path = d + '/' + name + '.yaml'
    with open(path, 'w') as f:
        yaml.dump({
            'unique_name': name,
            'data_handler_settings': {
                'data_handler': 'demo_tiny.TinyHandler'},
            'data_trafo_settings': {'model_dir': d + '/shared'},
            'loss_module_settings': {'loss_module': 'demolib.TinyLoss',
                                     'config': {}},
            'model_settings': {},
            'reconstruction_settings': {},
            'model_manager_settings': {
                'model_manager_class':
                    'egenerator.manager.base.BaseModelManager',
                'config': {'manager_dir': d + '/' + name}}}, f)
    return path


def _silent(fn, *a, **k):
    out, sys.stdout = sys.stdout, open(os.devnull, 'w')
    try:
        return fn(*a, **k)
    finally:
        sys.stdout = out


def export(configs, out, reco=None, answer=False):
    ANSWER[0] = answer
    return _silent(export_manager.main.callback, tuple(configs), out, reco)


def deployed(out):
    c = _silent(ManagerConfigurator, out, load_labels=True)
    return weights(c.manager)


def trafo(d, model_dir, answer=False):
    ANSWER[0] = answer
    with open(d + '/trafo.yaml', 'w') as f:
        yaml.dump({'unique_name': 'trafo', 'data_handler_settings': {
            'data_handler': 'demo_tiny.TinyHandler'},
            'data_iterator_settings': {'trafo': {}},
            'data_trafo_settings': {
                'model_dir': model_dir, 'num_batches': 2,
                'float_precision': 'float64', 'norm_constant': 1e-6}}, f)
    return _silent(create_trafo_model.main.callback, [d + '/trafo.yaml'])

TinyHandler.kill = lambda self: None
