"""P21: reconstruction trays."""
from . import env
env.setup()

import contextlib
import copy
import io
import random
import zlib

import numpy as np
import tensorflow as tf

from . import mp
from . import storage as S
from .pipeline import Violation, fail
from .storage import describe
from .train_models import TinyLoss

from egenerator import misc
from egenerator.data.handler.base import BaseDataHandler
from egenerator.data.tensor import DataTensor, DataTensorList
from egenerator.data.trafo import DataTransformer
from egenerator.manager.component import BaseComponent, Configuration
from egenerator.manager.reconstruction import modules as reco_modules
from egenerator.manager.reconstruction.tray import ReconstructionTray
from egenerator.manager.source import SourceManager
from egenerator.model.source.base import Source
import egenerator.data.trafo as trafo_module

trafo_module.tqdm = lambda x: x
DIM = 3
TENSORS = ['x_other', 'x_parameters', 'x_seed', 'x_target']


class SimFailure(Exception):
    pass


class SimStop(BaseException):
    """The user interrupts the program."""


class World(object):
    """The clock, the counters and the faults of one run."""

    def __init__(self):
        self.t = 1e6
        self.total = 0.
        self.hash = 0
        self.steps = 0
        self.evals = 0            # loss evaluations in this call
        self.fault = None         # {'eval': k, 'type': ...}
        self.fired = {}
        self.poisoned = []        # modules with a wrong evaluation
        self.current = None
        self.seen = []            # (name, entry, exit) of this call
        self.log = []

    def clock(self, name):
        return self.t

    def advance(self, dt):
        self.t += dt
        self.total += abs(dt)

    def note(self, *x):
        self.steps += 1
        text = repr(x)
        self.hash = zlib.crc32(text.encode(), self.hash)
        self.log.append(text)

    def fire(self, what):
        self.fired[what] = self.fired.get(what, 0) + 1
        self.note('fault', what)

    def evaluate(self):
        """One evaluation of the loss; returns what is added to it."""
        self.evals += 1
        self.steps += 1
        self.advance(.125)
        f = self.fault
        if f is None or f.get('eval') is None or self.evals != f['eval'] + 1:
            return 0.
        self.fire('%s in the loss' % f['type'])
        if f['type'] == 'jump':
            self.advance(f['dt'])
            return 0.
        self.poisoned.append(self.current)
        if f['type'] == 'error':
            raise SimFailure('the loss fails')
        if f['type'] == 'stop':
            raise SimStop()
        return float(f['type'])


W = [World()]


class RecoHandler(BaseComponent):

    @property
    def tensors(self):
        return self.data['tensors'] if self.data is not None else None

    def _configure(self, config):
        return Configuration(
            class_string=misc.get_full_class_string_of_object(self),
            settings=dict(config=config)), {'tensors': DataTensorList([
                DataTensor(name, [None, DIM], 'label', 'float32',
                           trafo=name == 'x_parameters')
                for name in TENSORS])}, {}

    def get_batch_generator(self, **settings):
        while True:
            x = np.array([[0., 1., 2.], [4., 3., -2.]], dtype='float32')
            yield [x] * len(TENSORS)

    get_data_set_signature = BaseDataHandler.get_data_set_signature

    def kill(self):
        pass


class RecoSource(Source):
    """loss = factor * sum_ej (j + 1) (x_ej - target_ej)^2."""

    def _build_architecture(self, config, name=None):
        self._untracked_data['w'] = tf.Variable(1.)
        return ['p%d' % i for i in range(DIM)]

    def get_tensors(self, data_batch_dict, is_training,
                    parameter_tensor_name='x_parameters'):
        x = data_batch_dict[parameter_tensor_name]
        bad = W[0].evaluate()
        f = self.configuration.config['config']['factor']
        d = tf.cast(x, tf.float32) - tf.cast(
            data_batch_dict['x_target'], tf.float32)
        scale = tf.constant([[1. + j for j in range(DIM)]])
        return {'loss': f * tf.reduce_sum(scale * d ** 2) + bad}


def true_loss(factors, x, batch):
    d = np.array(x, dtype='float64') - np.array(
        batch[TENSORS.index('x_target')], dtype='float64')
    scale = np.array([[1. + j for j in range(DIM)]])
    return sum(factors) * float(np.sum(scale * d ** 2))


class Bracket(object):
    """Records when a module of the tray runs."""

    def execute(self, data_batch, results):
        w = W[0]
        name = self.sim_name
        before, w.current = w.current, name
        start = w.t
        w.note('enter', name, sorted(results))
        try:
            return super().execute(data_batch, results)
        finally:
            w.seen.append((name, start, w.t))
            w.current = before


class SimReconstruction(Bracket, reco_modules.Reconstruction):

    def __init__(self, sim_name, **settings):
        self.sim_name = sim_name
        super().__init__(**settings)


class SimSelect(Bracket, reco_modules.SelectBestReconstruction):

    def __init__(self, sim_name, **settings):
        self.sim_name = sim_name
        super().__init__(**settings)


class Script(object):
    """A module of which everything is known."""

    def __init__(self, manager, loss_module, function_cache, sim_name, spec):
        self.spec = spec
        if spec.get('init_fails'):
            spec['init_fails'] -= 1
            W[0].fire('error at creation')
            raise SimFailure('module can not be created')

    def execute(self, data_batch, results):
        w = W[0]
        s = self.spec
        k = CALL[0]['index']
        for name, tag in CALL[0]['tags']:
            if name not in results:
                fail('order', 'module %r does not get the results of %r',
                     self.sim_name, name)
            if results[name].get('tag') != tag:
                fail('stale', 'module %r gets the results %r of %r instead '
                     'of %r', self.sim_name, results[name].get('tag'), name,
                     tag)
            if 'runtime' not in results[name]:
                fail('runtime', 'no run time in the results of %r', name)
        want = CALL[0]['names'][:CALL[0]['names'].index(self.sim_name)]
        if list(results) != want:
            fail('order', 'module %r gets the results of %r instead of %r',
                 self.sim_name, list(results), want)
        if data_batch is not CALL[0]['batch']:
            fail('batch', 'module %r gets another batch', self.sim_name)
        w.advance(s.get('dt', 1.))
        if k in s.get('jump', {}):
            w.fire('clock jump')
            w.advance(s['jump'][k])
        what = s.get('fail', {}).get(str(k))
        if what:
            w.fire('%s in a module' % what)
        if what == 'error':
            raise SimFailure('module fails')
        if what == 'stop':
            raise SimStop()
        if what == 'runtime':
            return {'tag': None, 'runtime': 1.}
        CALL[0]['count'] += 1
        tag = [k, CALL[0]['count']]
        CALL[0]['tags'].append((self.sim_name, tag))
        return {'tag': tag, 'loss_reco': float(s.get('loss', 0.)),
                'seed_tensor_name': 'x_seed',
                'result': data_batch[TENSORS.index('x_other')]}


class SimScript(Bracket, Script):

    def __init__(self, sim_name, **settings):
        self.sim_name = sim_name
        super().__init__(sim_name=sim_name, **settings)


CALL = [None]
for _c in (SimReconstruction, SimSelect, SimScript):
    setattr(reco_modules, _c.__name__, _c)
_cache = {}


def get_manager(factors):
    """Managers do not change: one per process is enough."""
    key = tuple(factors)
    if key not in _cache:
        h = RecoHandler()
        h.configure(config={})
        t = DataTransformer()
        t.configure(data_handler=h, data_iterator_settings={}, num_batches=2)
        models = []
        for f in factors:
            m = RecoSource()
            m.configure(config={'factor': f}, data_trafo=t)
            models.append(m)
        m = SourceManager()
        m.configure(config={'I3ParticleMapping': None}, data_handler=h,
                    models=models)
        loss = TinyLoss()
        loss.configure(config={'l': 1})
        other = TinyLoss()
        other.configure(config={'l': 2})
        _cache[key] = m, loss, other
    return _cache[key]


class Counting(object):
    """The manager, with every creation of a function counted."""

    def __init__(self, manager):
        self.__dict__['_m'] = manager
        self.__dict__['made'] = []

    def __getattr__(self, name):
        value = getattr(self._m, name)
        if name in ('get_parameter_loss_function',
                    'get_loss_and_gradients_function'):
            def f(*args, **kwargs):
                self.made.append(name)
                return as_function(value(*args, **kwargs),
                                   kwargs['input_signature'])
            return f
        return value


def as_function(function, signature):
    """Functions run eagerly here (see World.evaluate): convert the
    arguments as a traced function does."""
    def convert(value, spec):
        if isinstance(spec, (tuple, list)):
            if len(value) != len(spec):
                raise ValueError('Wrong number of tensors: %d, %d' % (
                    len(value), len(spec)))
            return tuple(convert(*x) for x in zip(value, spec))
        value = tf.convert_to_tensor(value, dtype=spec.dtype)
        if not spec.shape.is_compatible_with(value.shape):
            raise ValueError('Wrong shape: %r, %r' % (value.shape, spec))
        return value

    def call(parameters_trafo, data_batch, seed=None):
        args = [parameters_trafo, data_batch]
        kwargs = {}
        if seed is not None:
            if len(signature) < 3:
                raise TypeError('Unexpected argument seed')
            kwargs['seed'] = convert(seed, signature[2])
        return function(*[convert(*x) for x in zip(args, signature)],
                        **kwargs)
    call.__name__ = function.__name__
    return call


def snapshot(x):
    if isinstance(x, dict):
        return {k: snapshot(v) for k, v in sorted(x.items())}
    if isinstance(x, (list, tuple)):
        return [snapshot(v) for v in x]
    if hasattr(x, 'numpy'):
        x = x.numpy()
    if isinstance(x, np.ndarray):
        return (x.dtype.str, x.shape, x.tobytes())
    if isinstance(x, (int, float, str, bool, type(None), np.generic)):
        return repr(x)
    return type(x).__name__


class Run(object):

    def __init__(self, plan):
        self.plan = plan
        self.w = W[0]
        manager, self.loss, self.other = get_manager(plan['factors'])
        self.trays = []
        for _ in range(plan.get('trays', 1)):
            m = Counting(manager)
            self.trays.append({
                'm': m, 'tray': ReconstructionTray(m, self.loss),
                'names': [], 'specs': {}, 'made': set()})
        self.kept = []
        self.probes = {}
        self.calls = 0

    def probe(self, what):
        self.probes[what] = self.probes.get(what, 0) + 1

    def body(self):
        for op in self.plan['ops']:
            t = self.trays[op[1] % len(self.trays)]
            if op[0] == 'add':
                self.add(t, copy.deepcopy(op[2]))
            elif op[0] == 'call':
                self.call(t, op[2])
            elif op[0] == 'clock':
                self.w.advance(op[2])
                self.w.note('clock', op[2])
        for k, (res, snap) in enumerate(self.kept):
            if snapshot(res) != snap:
                fail('changed', 'the results of call %d were changed '
                     'later', k)

    def settings(self, spec):
        s = dict(sim_name=spec['name'])
        if spec['kind'] == 'script':
            s['spec'] = spec
            return 'SimScript', s
        if spec['kind'] == 'select':
            return 'SimSelect', dict(s, reco_names=spec['of'])
        s.update(fit_paramater_list=list(spec['fit']),
                 seed_tensor_name=spec['seed'],
                 seed_from_previous_module=spec['seed'] not in TENSORS,
                 minimize_in_trafo_space=spec['trafo'],
                 scipy_optimizer_settings={'method': spec['method']})
        if spec.get('bounds'):
            s['scipy_optimizer_settings']['bounds'] = [
                [-40., 40.] for x in range(DIM)]
        return 'SimReconstruction', s

    def add(self, t, spec):
        name, kw = self.settings(spec)
        auto = spec.get('auto') and 'module_%04d' % len(t['names']) == \
            spec['name']
        clash = spec['name'] in t['names']
        n = len(t['m'].made)
        try:
            t['tray'].add_module(name, name=None if auto else spec['name'],
                                 **kw)
        except SimFailure:
            if clash:
                fail('add', 'a second module %r is created', spec['name'])
            self.w.note('add failed', spec['name'])
            # the name is still free
            return self.add(t, spec)
        except ValueError as e:
            if not clash:
                fail('add', 'adding %r fails: %s', spec['name'], describe(e))
            self.probe('duplicate name refused')
            return
        if clash:
            fail('add', 'a second module %r was added', spec['name'])
        self.w.note('add', spec['name'])
        t['names'].append(spec['name'])
        t['specs'][spec['name']] = spec
        if spec['kind'] == 'reco':
            need = set([('loss', len(spec['fit'])),
                        ('grad', tuple(spec['fit']), spec['trafo'])])
            new = len(need - t['made'])
            t['made'] |= need
            if len(t['m'].made) - n != new:
                fail('cache', 'adding %r creates %d functions instead of %d',
                     spec['name'], len(t['m'].made) - n, new)

    def batch(self, o):
        r = random.Random(o['data'])
        n = o.get('events', 1)
        def values(k):
            return [[r.randrange(-16, 17) / 2. for _ in range(DIM)]
                    for _ in range(n)]
        out = tuple(np.array(values(k), dtype='float32')
                    for k in range(len(TENSORS)))
        if o.get('tensor'):
            out = tuple(tf.constant(x) for x in out)
        return out

    def call(self, t, o):
        w = self.w
        batch = self.batch(o)
        before = [np.array(x) for x in batch]
        w.evals = 0
        w.poisoned = []
        w.seen = []
        w.fault = o.get('fault')
        CALL[0] = {'index': self.calls, 'tags': [], 'count': 0,
                   'batch': batch, 'names': list(t['names'])}
        k = self.calls
        self.calls += 1
        w.note('call', k)
        start = w.t
        exc = None
        np.random.seed(k)
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                res = t['tray'].execute(batch)
        except Violation:
            raise
        except (SimFailure, SimStop) as e:
            exc = e
        except Exception as e:
            if not S.in_repo(e) and not w.poisoned:
                raise
            exc = e
        w.note('done', type(exc).__name__ if exc else 'ok')
        for x, y in zip(before, batch):
            if not np.array_equal(x, np.array(y)):
                fail('batch', 'the batch was modified')
        names = t['names']
        ran = [x[0] for x in w.seen]
        if ran != names[:len(ran)]:
            fail('order', 'modules ran in the order %r instead of %r', ran,
                 names)
        expected = None
        for name in names:
            spec = t['specs'][name]
            what = spec.get('fail', {}).get(str(k))
            if what:
                expected = {'error': SimFailure, 'stop': SimStop,
                            'runtime': ValueError}[what]
                break
        hurt = bool(w.poisoned)
        if exc is not None:
            self.probe('call failed')
            if expected is None and not hurt:
                fail('error', 'the call fails: %s', describe(exc))
            if expected is not None and not hurt and not isinstance(
                    exc, expected):
                fail('error', 'a module raised %s, the caller got %s',
                     expected.__name__, describe(exc))
            return
        if expected is not None:
            fail('error', 'the failure %s of a module is lost',
                 expected.__name__)
        self.probe('call completed')
        if list(res) != names:
            fail('order', 'results of %r instead of %r', list(res), names)
        for (name, a, b) in w.seen:
            if res[name].get('runtime') != b - a:
                fail('runtime', 'run time of %r is %r instead of %r', name,
                     res[name].get('runtime'), b - a)
        if not hurt:
            self.check_values(t, o, batch, res)
        self.kept.append((res, snapshot(res)))

    def check_values(self, t, o, batch, res):
        target = batch[TENSORS.index('x_target')]
        for name in t['names']:
            spec = t['specs'][name]
            if spec['kind'] == 'reco':
                seed = spec['seed']
                if seed in TENSORS:
                    seed = batch[TENSORS.index(seed)]
                else:
                    seed = res[seed]['result']
                got = np.array(res[name]['result'])
                want = np.where(spec['fit'], target, seed)
                if got.shape != want.shape or not np.allclose(
                        got, want, atol=.1):
                    fail('result', '%r finds %r instead of %r', name,
                         got.tolist(), want.tolist())
                for key, x in (('loss_seed', seed), ('loss_reco', got)):
                    loss = true_loss(self.plan['factors'], x, batch)
                    if not np.allclose(res[name][key], loss, rtol=1e-3,
                                       atol=1e-3):
                        fail('result', '%s of %r is %r instead of %r', key,
                             name, res[name][key], loss)
            elif spec['kind'] == 'select':
                losses = [float(res[x]['loss_reco']) for x in spec['of']]
                usable = [x for x in losses if x < np.inf]
                want = spec['of'][losses.index(min(usable)) if usable
                                  else -1]
                if not np.array_equal(np.array(res[name]['result']),
                                      np.array(res[want]['result'])) or \
                        not np.array_equal(losses[spec['of'].index(want)],
                                           float(res[name]['loss_reco']),
                                           equal_nan=True):
                    fail('select', '%r selects loss %r instead of that of '
                         '%r (%r)', name, res[name]['loss_reco'], want,
                         losses)
                self.probe('selection')


class Result(object):
    pass


class P21(object):
    id = 'P21'

    def known(self, plan, violation):
        from . import findings
        return findings.match(self.id, plan, violation) is not None

    def plan(self, rng, tier):
        ops = []
        faulty = rng.choice([0., .5, .8])
        trays = rng.choice([1, 1, 1, 2])
        tensor = rng.random() < .3
        names = [[] for _ in range(trays)]
        recos = [[] for _ in range(trays)]
        seeds = [[] for _ in range(trays)]
        ncalls = 0
        for _ in range(rng.choice([3, 5, 8, 10])):
            k = rng.randrange(trays)
            x = rng.random()
            if x < .55 or not names[k]:
                ops.append(['add', k, self.module(
                    rng, names[k], recos[k], seeds[k], faulty, ncalls,
                    tensor)])
            elif x < .65:
                ops.append(['clock', k, rng.choice([-1e5, -.5, 3600., 1e7])])
            else:
                ops.append(['call', k, self.call(rng, faulty, tensor)])
                ncalls += 1
        for k in range(trays):
            for _ in range(2):
                ops.append(['call', k, self.call(
                    rng, faulty if _ == 0 else 0., tensor)])
        return {'ops': ops, 'trays': trays,
                'factors': rng.choice([[1.], [.5], [1., 2.]])}

    def module(self, rng, names, recos, seeds, faulty, ncalls, tensor):
        name = rng.choice(['a', 'b', 'c', 'd', 'e', 'f', 'reco', 'runtime',
                           'module_0001', 'result'])
        auto = rng.random() < .2
        if auto:
            name = 'module_%04d' % len(names)
        x = rng.random()
        if x < .2 and recos:
            spec = {'kind': 'select', 'of': [
                rng.choice(recos) for _ in range(rng.choice([1, 2, 3]))]}
        elif x < .6:
            fit = [rng.random() < .7 for _ in range(DIM)]
            if not any(fit):
                fit[0] = True
            if tensor or rng.random() < .5:
                # a subset can only be fitted with numpy arrays
                fit = [True] * DIM
            spec = {'kind': 'reco', 'fit': fit, 'trafo': rng.random() < .5,
                    'seed': rng.choice(seeds) if seeds and
                    rng.random() < .5 else rng.choice(['x_seed', 'x_other']),
                    'method': rng.choice(['BFGS', 'L-BFGS-B'])}
            if spec['method'] == 'L-BFGS-B' and all(fit) and \
                    rng.random() < .5:
                spec['bounds'] = True
        else:
            spec = {'kind': 'script', 'dt': rng.choice([0., .5, 2., 1e4])}
            spec['loss'] = rng.choice([-1., .001, 5., 1e9, 'inf', 'nan'])
            if rng.random() < faulty:
                spec['fail'] = {str(ncalls + rng.randrange(4)): rng.choice(
                    ['error', 'error', 'stop', 'runtime'])}
            if rng.random() < faulty / 2:
                spec['jump'] = {ncalls + rng.randrange(4): rng.choice(
                    [-1e6, -1., 86400.])}
            if rng.random() < faulty / 2:
                spec['init_fails'] = 1
        spec['name'] = name
        if auto:
            spec['auto'] = True
        if name not in names:
            names.append(name)
            if spec['kind'] in ('reco', 'script'):
                recos.append(name)
            seeds.append(name)
        return spec

    def call(self, rng, faulty, tensor):
        o = {'data': rng.randrange(1 << 30)}
        if tensor and rng.random() < .6:
            o['tensor'] = True
        if rng.random() < faulty / 2:
            o['fault'] = {'eval': rng.choice([0, 1, 2, 4, 8, 15, 30]),
                          'type': rng.choice(['error', 'stop', 'nan', 'inf',
                                              'jump', '-inf'])}
            if o['fault']['type'] == 'jump':
                o['fault']['dt'] = rng.choice([-1e7, -3., 1e7])
        return o

    def run(self, plan, keep_log=False):
        W[0] = w = World()
        for op in plan['ops']:
            if op[0] == 'add' and op[2].get('jump'):
                op[2]['jump'] = {int(a): b for a, b in
                                 op[2]['jump'].items()}
        res = Result()
        res.violation = None
        tf.config.run_functions_eagerly(True)
        r = Run(plan)
        mp.CLOCK[0] = w.clock
        try:
            r.body()
        except Violation as e:
            res.violation = (e.kind, e.info)
        except Exception as e:
            if not S.in_repo(e):
                raise
            res.violation = ('error', describe(e))
        finally:
            mp.CLOCK[0] = None
            CALL[0] = None
            tf.config.run_functions_eagerly(True)
        res.hash = w.hash
        res.steps = w.steps
        res.sim_s = w.total
        res.deviations = []
        res.fired = w.fired
        res.probes = r.probes
        res.switches = r.calls
        res.log = w.log
        res.worker_errors = []
        res.api_calls = r.calls
        return res

    def nontrivial(self, plan, res):
        return 'call completed' in res.probes

    def sample(self, plan, res):
        return {'plan': {k: v for k, v in plan.items()
                         if k not in ('seed', 'property')},
                'loss_evaluations_and_steps': res.steps, 'fired': res.fired,
                'probes': res.probes, 'trace_hash': '%08x' % res.hash}

    def shrink(self, plan):
        for i in range(len(plan['ops'])):
            p = copy.deepcopy(plan)
            op = p['ops'].pop(i)
            if op[0] == 'add' and self.needed(p, op[2]['name']):
                continue
            yield p
        if plan.get('trays', 1) > 1:
            yield dict(copy.deepcopy(plan), trays=1)
        for i, op in enumerate(plan['ops']):
            for key in ('fault', 'tensor', 'jump', 'fail', 'init_fails',
                        'bounds', 'auto'):
                if op[0] != 'clock' and op[2].get(key):
                    p = copy.deepcopy(plan)
                    del p['ops'][i][2][key]
                    yield p
            if op[0] == 'add' and len(op[2].get('of', ())) > 1:
                for j in range(len(op[2]['of'])):
                    p = copy.deepcopy(plan)
                    del p['ops'][i][2]['of'][j]
                    yield p
        if len(plan['factors']) > 1:
            yield dict(copy.deepcopy(plan), factors=plan['factors'][:1])

    def needed(self, plan, name):
        return any(op[0] == 'add' and (name in op[2].get('of', ()) or
                                       op[2].get('seed') == name)
                   for op in plan['ops'])


PROPS = [P21()]
