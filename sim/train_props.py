"""P19, P20: training runs and ensembles of models."""
import contextlib
import copy
import io
import os

import numpy as np
import ruamel.yaml as yaml
import tensorflow as tf

from . import disk as D
from . import storage as S
from . import train_models as TM
from .pipeline import fail
from .storage import describe, gen_fault
from .store_props import Ref, StoreProp, base, gen_clock

from egenerator.data.trafo import DataTransformer
from egenerator.manager.base import BaseModelManager
import egenerator.data.trafo as trafo_module
from egenerator import train_model
from egenerator.settings import version_control

trafo_module.tqdm = lambda x: x
tf.summary.create_file_writer = \
    lambda *a, **k: tf.summary.create_noop_writer()
version_control.installed_packages = {'egenerator': '0'}


def leaf_initial():
    return ((0., 0.), 0, 1)


class Fleet(object):
    """One model manager, its directory, and what should be in it."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.plan = ctx.plan
        self.dir = ctx.path(self.plan['dirs'][0])
        self.disk_dir = os.path.splitext(self.dir)[0]
        self.ref = Ref()
        self.records = []         # completed training starts
        self.gap = 0              # saves interrupted since the last good one
        self.torn = False         # anything was ever interrupted
        self.lost_starts = 0      # interrupted training starts
        self.feed = TM.Feed()
        self.feed.crash = ctx.disk.crash
        TM.FEED[0] = self.feed
        with D.paused():
            self.watcher = self.build()
            if any(op[0] == 'train' and op[1].get('script')
                   for op in self.plan['ops']):
                self.prepare_script()

    # -- construction ------------------------------------------------------
    def trafo(self, handler):
        t = DataTransformer()
        t.configure(data_handler=handler, data_iterator_settings={'s': 1},
                    num_batches=2)
        return t

    def build(self):
        h = TM.TinyHandler()
        h.configure(config={'data_handler': 'sim_tiny.TinyHandler'})
        t = self.trafo(h)
        models = []
        for factor in self.plan['members']:
            if isinstance(factor, list):
                m = TM.TinyMulti()
                bases = {}
                for k, f in enumerate(factor):
                    s = TM.TinySource()
                    s.configure(config={'factor': f}, data_trafo=t)
                    bases['b%d' % k] = s
                m.configure(config={'sources': {
                    's%d' % k: 'b%d' % k for k in range(len(factor))}},
                    base_sources=bases, data_trafo=t)
            else:
                m = TM.TinySource()
                m.configure(config={'factor': factor}, data_trafo=t)
            models.append(m)
        manager = BaseModelManager()
        manager.configure(config={'manager_dir': self.dir}, data_handler=h,
                          models=models)
        return manager

    def factors(self):
        out = []
        for f in self.plan['members']:
            out.extend(f if isinstance(f, list) else [f])
        return out

    def multi(self):
        return isinstance(self.plan['members'][0], list)

    def leaf_dirs(self):
        out = []
        for i, f in enumerate(self.plan['members']):
            d = os.path.join(self.disk_dir, 'models_%04d' % i)
            if isinstance(f, list):
                out.extend(os.path.join(d, 'b%d' % k)
                           for k in range(len(f)))
            else:
                out.append(d)
        return out

    def leaves(self, manager):
        return [x for m in manager.models for x in TM.leaves(m)]

    def states(self, manager):
        return tuple(TM.state(x) for x in self.leaves(manager))

    def restorable(self):
        return os.path.exists(os.path.join(self.disk_dir,
                                           'configuration.yaml'))

    def manager(self):
        """The manager of the living process, as the training script gets it.
        """
        m = self.ctx.memory.get('manager')
        if m is None:
            if self.restorable():
                m = BaseModelManager()
                what, val = self.ctx.attempt('load', lambda: m.load(self.dir))
                if what != 'ok':
                    fail('lost', 'the saved manager does not load: %s',
                         describe(val))
                self.expect_default(self.states(m), 'load')
            else:
                with D.paused():
                    m = self.build()
            self.ctx.memory['manager'] = m
        return m

    def expect_default(self, got, how):
        e = self.ref.entries.get(self.ref.latest)
        if e is None:
            fail('ghost', '%s restores %r, nothing was saved', how, got)
        if got != e[1]:
            fail('wrong', '%s restores %r, saved was %r', how, got, e[1])

    # -- observation -------------------------------------------------------
    def load(self, n):
        for x in self.leaves(self.watcher):
            TM.clear(x)
        try:
            with D.paused():
                if n is None:
                    self.watcher.load_weights(self.disk_dir)
                else:
                    self.watcher.load_weights(self.disk_dir,
                                              checkpoint_number=n)
        except Exception as e:
            return 'error', e
        return 'ok', self.states(self.watcher)

    def bound(self):
        return self.ref.latest + self.gap + 2

    def probe(self, full=False):
        for n in list(range(0, self.bound() + 1)) + [None]:
            self.check_one(n)
        if not self.torn:
            self.check_members()
        if full and self.ref.component:
            with D.paused():
                m = BaseModelManager()
                try:
                    m.load(self.dir)
                except Exception as e:
                    fail('lost', 'the saved manager does not load: %s',
                         describe(e))
                self.expect_default(self.states(m), 'loading the manager')
                sure = self.ref.sure()
                if sure:
                    n = sure[self.ctx.plan['order'] % len(sure)]
                    m = BaseModelManager()
                    try:
                        m.load(self.dir, checkpoint_number=n)
                    except Exception as e:
                        fail('lost', 'checkpoint %d of the manager does not '
                             'load: %s', n, describe(e))
                    if self.states(m) != self.ref.entries[n][1]:
                        fail('wrong', 'checkpoint %d of the manager restores '
                             '%r, saved was %r', n, self.states(m),
                             self.ref.entries[n][1])

    def check_one(self, n):
        what, got = self.load(n)
        num = self.ref.latest if n is None else n
        name = 'default load' if n is None else 'checkpoint %d' % n
        e = self.ref.entries.get(num)
        if e is None:
            if what == 'ok':
                fail('ghost', '%s loads %r but should not exist', name, got)
            return
        if what != 'ok':
            if e[2]:
                fail('lost', '%s does not load: %s', name, describe(got))
            return
        if got != e[1]:
            fail('wrong', '%s restores %r, saved was %r', name, got, e[1])

    def check_members(self):
        """Without interruptions every member has the same checkpoints."""
        want = sorted(self.ref.entries)
        for x, d, i in zip(self.leaves(self.watcher), self.leaf_dirs(),
                           range(99)):
            for n in range(1, self.ref.latest + 2):
                TM.clear(x)
                try:
                    with D.paused():
                        x.load_weights(d, checkpoint_number=n)
                except Exception as e:
                    if n in want:
                        fail('step', 'member %d lacks checkpoint %d: %s', i,
                             n, describe(e))
                    continue
                if n not in want:
                    fail('step', 'member %d has checkpoint %d, the ensemble '
                         'has %r', i, n, want)
                if TM.state(x) != self.ref.entries[n][1][i]:
                    fail('wrong', 'checkpoint %d of member %d restores %r, '
                         'saved was %r', n, i, TM.state(x),
                         self.ref.entries[n][1][i])

    def check_records(self, now=None):
        """The training records of all members.

        now: (config, set of possible iteration numbers) of the current one.
        """
        for i, d in enumerate(self.leaf_dirs()):
            f = os.path.join(d, 'training', 'training_steps.yaml')
            with D.paused():
                steps = {}
                if os.path.exists(f):
                    with open(f) as stream:
                        steps = yaml.safe_load(stream)['training_steps']
                lo = len(self.records)
                if not lo <= len(steps) <= lo + self.lost_starts:
                    fail('records', 'member %d has %d training records, %d '
                         'runs were started', i, len(steps), lo)
                if not self.records or not steps:
                    continue
                conf, nums, sure = self.records[-1]
                k = max(steps)
                if not sure:
                    continue
                if steps[k]['num_training_steps'] not in nums:
                    fail('records', 'member %d records %r iterations, done '
                         'are %r', i, steps[k]['num_training_steps'],
                         sorted(nums))
                with open(os.path.join(d, 'training', 'step_%04d' % k,
                                       'training_config.yaml')) as stream:
                    got = yaml.load(stream, Loader=yaml.Loader)
                for key in conf:
                    if got.get(key) != conf[key]:
                        fail('records', 'member %d records the setting %s as '
                             '%r instead of %r', i, key, got.get(key),
                             conf[key])
                loss = TM.TinyLoss()
                loss.load(os.path.join(d, 'training', 'step_%04d' % k,
                                       'loss_module'))

    # -- what a call has left ----------------------------------------------
    def settle(self, done, maybe, interrupted):
        """Number the saves of a call.

        done: [(protected, states, max_keep)] of completed saves in order,
        maybe: the same for saves that may have completed before a crash.
        """
        if not done and not maybe:
            return
        have = {}
        top = self.ref.latest + self.gap + len(done) + len(maybe) + 1
        for n in range(self.ref.latest + 1, top + 1):
            what, got = self.load(n)
            if what == 'ok':
                have[n] = got
        first = min(have) if have else None
        if done and first is None:
            fail('lost', 'no new checkpoint after %d completed saves',
                 len(done))
        n = first
        for k, (protected, sig, keep) in enumerate(done):
            if k == 0 and not (self.ref.latest < n <=
                               self.ref.latest + 1 + self.gap):
                fail('number', 'checkpoint %d follows checkpoint %d', n,
                     self.ref.latest)
            self.ref.commit(n, protected, sig, keep)
            n += 1
        if done:
            self.gap = 0
        for protected, sig, keep in maybe:
            if not protected and keep is not None:
                for k in self.ref.due(keep, 1 << 60):
                    e = self.ref.entries[k]
                    self.ref.entries[k] = (e[0], e[1], False)
            if n is None or n not in have:
                break
            self.ctx.probe('interrupted save had committed')
            self.ref.entries[n] = (protected, sig, True)
            self.ref.latest = n
            n += 1
        if interrupted:
            self.gap += 1
            self.torn = True

    # -- operations --------------------------------------------------------
    def save(self, opt, fault):
        ctx = self.ctx
        m = self.manager()
        for i, x in enumerate(self.leaves(m)):
            TM.set_state(x, ctx.tag())
        sig = self.states(m)
        kw = {k: opt[k] for k in ('max_keep', 'protected', 'description')
              if k in opt}
        keep = opt.get('max_keep', 3)
        start = None
        if opt.get('start') is not None:
            start = self.training_config(opt['start'])
            kw['new_training_settings'] = {
                'config': start, 'components': {'loss_module': self.loss()}}
            ctx.clock.jump(1.)
        via = 'save' if start is not None else opt.get('via', 'weights')
        if opt.get('steps') is not None and self.records and \
                start is None and self.records[-1][2]:
            kw['num_training_steps'] = opt['steps']
        if via == 'save':
            def fn():
                return m.save(self.dir, overwrite=True, **kw)
        else:
            def fn():
                return m.save_weights(self.disk_dir, **kw)
        what, val = ctx.attempt('save', fn, fault)
        event = (opt.get('protected', False), sig, keep)
        if what == 'error' and not ctx.disk.hit:
            fail('save', 'saving the ensemble fails: %s', describe(val))
        if what in ('ok', 'done-died'):
            self.settle([event], [], False)
            if via == 'save':
                self.ref.component = True
            if start is not None:
                self.records.append([start, set([0]), True])
            elif 'num_training_steps' in kw:
                self.records[-1][1] = set([opt['steps']])
            if what == 'done-died':
                ctx.restart()
        else:
            if what == 'crash':
                ctx.restart()
            ctx.probe('interrupted save')
            self.settle([], [event], True)
            if start is not None:
                # it may be recorded by some of the members only
                self.lost_starts += 1
                if self.records:
                    self.records[-1][2] = False
            elif 'num_training_steps' in kw:
                self.records[-1][1].add(opt['steps'])
        self.probe()
        self.check_records()

    def start(self, o, fault):
        """A training start is recorded without saving weights."""
        ctx = self.ctx
        m = self.manager()
        conf = self.training_config(o)
        ctx.clock.jump(1.)
        what, val = ctx.attempt('start', lambda: m.save_training_settings(
            self.disk_dir, {'config': conf,
                            'components': {'loss_module': self.loss()}}),
            fault)
        if what == 'error' and not ctx.disk.hit:
            fail('save', 'recording a training fails: %s', describe(val))
        if what in ('ok', 'done-died'):
            self.records.append([conf, set([0]), True])
        else:
            self.lost_starts += 1
            if self.records:
                self.records[-1][2] = False
        if what in ('crash', 'done-died'):
            ctx.restart()
        self.probe()
        self.check_records()

    def op_load(self, n):
        m = self.manager()
        for x in self.leaves(m):
            TM.clear(x)
        num = self.ref.latest if n is None else n
        e = self.ref.entries.get(num)
        kw = {} if n is None else {'checkpoint_number': n}
        what, val = self.ctx.attempt(
            'load', lambda: m.load_weights(self.disk_dir, **kw))
        if what == 'error':
            if e is not None and e[2]:
                fail('lost', 'checkpoint %d does not load: %s', num,
                     describe(val))
            return
        if e is None:
            fail('ghost', 'checkpoint %d should not exist', num)
        if self.states(m) != e[1]:
            fail('wrong', 'checkpoint %d restores %r, saved was %r', num,
                 self.states(m), e[1])

    # -- training ----------------------------------------------------------
    def loss(self):
        loss = TM.TinyLoss()
        loss.configure(config={'l': 1})
        return loss

    def training_config(self, o):
        settings = {
            'optimizer_name': 'SGD',
            'optimizer_settings': {'learning_rate': o.get('lr', 1.)},
            'additional_loss_module_kwargs': {},
            'validation_frequency': o.get('validate', 1),
            'evaluation_frequency': o.get('evaluate', 2),
            'save_frequency': o.get('every', 1),
            'l1_regularization': 0., 'l2_regularization': 0.,
            'num_training_iterations': o.get('n', 0)}
        if o.get('schedule'):
            settings['optimizer_settings']['learning_rate'] = {
                'full_class_string':
                    'keras.optimizers.schedules.PiecewiseConstantDecay',
                'settings': {'boundaries': [o['schedule'][0]],
                             'values': list(o['schedule'][1:])}}
        if o.get('clip'):
            settings['clip_gradients_value'] = o['clip']
        if o.get('remove') is not None:
            settings['remove_nan_gradients'] = o['remove']
        return {'training_settings': settings, 'tag': self.ctx.tag(),
                'data_iterator_settings': {
                    'training': {'kind': 'training'},
                    'validation': {'kind': 'validation'}}}

    def rate(self, o, k):
        """Learning rate of the k-th iteration, counted from 0."""
        if o.get('schedule'):
            b, v0, v1 = o['schedule']
            return v0 if k <= b else v1
        return o.get('lr', 1.)

    def advance(self, o, start, batches):
        """States after 0, 1, ... iterations on these batches."""
        out = [start]
        for k, x in enumerate(batches):
            g = x.sum(axis=0)
            if o.get('remove'):
                g = np.where(np.isnan(g), 0, g)
            new = []
            for (w, aux, step), f in zip(out[-1], self.factors()):
                lr = self.rate(o, k)
                w = tuple(float(np.float32(np.float32(a) - np.float32(
                    lr * f * d))) for a, d in zip(w, g))
                new.append((w, aux, step if self.multi() else step + 1))
            out.append(tuple(new))
        return out

    def prepare_script(self):
        h = TM.TinyHandler()
        h.configure(config={'data_handler': 'sim_tiny.TinyHandler'})
        d = self.ctx.path('trafo')
        self.trafo(h).save(d)

    def script_config(self, conf, o):
        c = copy.deepcopy(conf)
        if o.get('evaluation'):
            c['evaluation_module_settings'] = {
                'evaluation_module': 'sim.train_models.TinyEvaluation',
                'config': {'e': 1}}
        factor = self.plan['members'][0]
        c['data_handler_settings'] = {'data_handler': 'sim_tiny.TinyHandler'}
        c['data_trafo_settings'] = {'model_dir': self.ctx.path('trafo')}
        c['loss_module_settings'] = {
            'loss_module': 'sim.train_models.TinyLoss', 'config': {'l': 1}}
        c['model_manager_settings'] = {
            'model_manager_class':
                'egenerator.manager.base.BaseModelManager',
            'restore_model': True, 'config': {'manager_dir': self.dir}}
        if isinstance(factor, list):
            c['model_settings'] = {
                'model_class': 'sim.train_models.TinyMulti',
                'config': {'sources': {'s%d' % k: 'b%d' % k
                                       for k in range(len(factor))}},
                'multi_source_bases': {
                    'b%d' % k: {'model_class': 'sim.train_models.TinySource',
                                'config': {'factor': f}}
                    for k, f in enumerate(factor)}}
        else:
            c['model_settings'] = {
                'model_class': 'sim.train_models.TinySource',
                'config': {'factor': factor}}
        return c

    def train(self, o):
        ctx, feed, ref = self.ctx, self.feed, self.ref
        conf = self.training_config(o)
        n = o['n']
        script = o.get('script')
        if script:
            # the program is started anew
            ctx.memory.clear()
            start = tuple(leaf_initial() for f in self.factors())
            if self.restorable():
                if ref.latest not in ref.entries:
                    fail('ghost', 'a manager is saved without a checkpoint')
                start = ref.entries[ref.latest][1]
            path = ctx.path('run%d.yaml' % feed.count)
            with D.paused():
                with open(path, 'w') as f:
                    yaml.dump(self.script_config(conf, o), f)

            def fn():
                return train_model.main.callback([path])
        else:
            m = self.manager()
            start = self.states(m)
            own = [int(x.step.numpy()) for x in m.models]
            evaluation = None
            if o.get('evaluation'):
                evaluation = TM.TinyEvaluation()
                evaluation.configure(config={'e': 1})

            def fn():
                return m.train(conf, self.loss(), n,
                               evaluation_module=evaluation)
        feed.call(o.get('feed'))
        ctx.clock.jump(1.)
        tf.config.run_functions_eagerly(not o.get('graph'))
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                what, val = ctx.attempt('train %d' % n, fn, o.get('fault'))
        finally:
            tf.config.run_functions_eagerly(True)
        if script:
            ctx.memory.clear()

        # every member is trained on the same batch in every iteration
        width = len(self.plan['members'])
        batches = feed.trained[::width]
        for i, x in enumerate(feed.trained):
            if not np.array_equal(x, batches[i // width], equal_nan=True):
                fail('batch', 'members are trained on different batches')
        for i in range(1, len(batches)):
            if np.array_equal(batches[i], batches[i - 1]):
                fail('batch', 'iterations %d and %d use the same batch',
                     i, i + 1)
        if any(feed.kind(x) == 'validation' for x in batches):
            fail('batch', 'trained on a batch of the validation dataset')
        if o.get('evaluation'):
            for step, x in feed.modules:
                if feed.kind(x) == 'training':
                    fail('batch', 'the evaluation module got a batch of the '
                         'training dataset')
            every = o.get('evaluate', 2)
            got = [step for step, x in feed.modules]
            want = [i for i in range(n) if i % every == 0]
            if got != want[:len(got)] or (
                    what in ('ok', 'done-died') and got != want):
                fail('evaluation', 'the evaluation module is called in '
                     'iterations %r instead of %r', got, want)
        if what in ('ok', 'done-died'):
            want = ['training', 'validation'] * len(
                [i for i in range(n) if i % o.get('validate', 1) == 0])
            got = [feed.kind(x) for x in feed.evaluated[::width]]
            if got != want and None not in got:
                fail('batch', 'losses are computed for batches of %r instead '
                     'of %r', got, want)
        states = self.advance(o, start, batches)
        t = len(batches)
        every = o.get('every', 1)
        events = [(0, True)] + [
            (i + 1, False) for i in range(n) if i and i % every == 0
        ] + [(n, True)]
        bad = any(not np.all(np.isfinite(x)) and not (
            o.get('remove') and not np.any(np.isinf(x)))
            for x in batches)
        nan = bad or any(np.any(np.isnan(x)) for x in feed.evaluated)

        if what in ('ok', 'done-died'):
            if nan:
                fail('nan', 'training goes on with an invalid loss')
            if t != n:
                fail('steps', '%d iterations asked for, %d done', n, t)
            self.settle([(p, states[k], 3) for k, p in events], [], False)
            ref.component = True
            self.records.append([conf, set([n]), True])
            if what == 'done-died':
                ctx.restart()
            elif not script:
                if self.states(m) != states[n]:
                    fail('wrong', 'after %d iterations the weights are %r, '
                         'expected %r', n, self.states(m), states[n])
                if [int(x.step.numpy()) for x in m.models] != [
                        s + n for s in own]:
                    fail('steps', 'step counters went from %r to %r in %d '
                         'iterations', own,
                         [int(x.step.numpy()) for x in m.models], n)
            if script:
                ctx.restart()
            ctx.probe('training completed')
        else:
            if what == 'error' and not ctx.disk.hit and not feed.fired:
                fail('train', 'training fails: %s', describe(val))
            if what == 'crash':
                ctx.restart()
            if nan and what == 'error' and not ctx.disk.hit:
                # nothing may be saved any more
                ctx.probe('invalid loss')
                done = [(k, p) for k, p in events if k < t]
                maybe = []
            else:
                done = [(k, p) for k, p in events if k < t]
                maybe = [(k, p) for k, p in events if k == t]
            if t == 0 and n > 0:
                maybe = maybe[:1]
            ctx.probe('training interrupted')
            self.settle([(p, states[k], 3) for k, p in done],
                        [(p, states[k], 3) for k, p in maybe], True)
            if done:
                ref.component = True
                nums = set([done[-1][0]]) | set(k for k, p in maybe)
                self.records.append([conf, nums, True])
            else:
                self.lost_starts += 1
                if self.records:
                    self.records[-1][2] = False
        self.probe(full=True)
        self.check_records()


def body(self, ctx):
    tf.config.run_functions_eagerly(True)
    f = Fleet(ctx)
    for op in ctx.plan['ops']:
        if op[0] == 'save':
            f.save(op[1], op[2])
        elif op[0] == 'train':
            f.train(op[1])
        elif op[0] == 'start':
            f.start(op[1], op[2])
        elif op[0] == 'load':
            f.op_load(op[1])
        elif op[0] == 'restart':
            ctx.restart()
        elif op[0] == 'clock':
            ctx.clock.jump(op[1])
    f.probe(full=True)


def gen_members(rng, most):
    if rng.random() < .3:
        k = rng.choice([1, 2, 2])
        return [[rng.choice([1., .5, 2.]) for _ in range(k)]
                for _ in range(rng.choice([1, 1, 2][:most + 1]))]
    return [rng.choice([1., .5, 2., 3.])
            for _ in range(rng.choice([1, 2, 2, 3][:most + 1]))]


DIRS = ['m', 'm', 'm', 'models/v1.2', 'a b', 'x.y/z']


def gen_train(rng, faulty, script_ok):
    o = {'n': rng.choice([0, 1, 2, 3, 4, 6, 9]),
         'every': rng.choice([1, 1, 2, 3, 5]),
         'validate': rng.choice([1, 2, 3, 100]),
         'evaluate': rng.choice([1, 2, 100]),
         'lr': rng.choice([1., .5, .25])}
    if rng.random() < .2:
        o['schedule'] = [rng.randrange(3), 1., rng.choice([.5, .125])]
    if rng.random() < .2:
        o['clip'] = float(2 ** 30)
    if rng.random() < .5:
        o['remove'] = rng.random() < .5
    if rng.random() < .4:
        o['evaluation'] = True
    if script_ok and rng.random() < .35:
        o['script'] = True
    if rng.random() < .03:
        o['graph'] = True
    if rng.random() < faulty:
        if rng.random() < .6:
            o['fault'] = gen_fault(rng, [20, 60, 150, 150, 400])
        else:
            o['feed'] = {'batch': rng.randrange(2 * o['n'] + 1),
                         'type': rng.choice(['nan', 'nan', 'inf', 'crash',
                                             'crash', 'error', 'end']),
                         'column': rng.randrange(2)}
    return o


class FleetProp(StoreProp):
    body = body

    def shrink(self, plan):
        for p in StoreProp.shrink(self, plan):
            yield p
        for i, op in enumerate(plan['ops']):
            if op[0] != 'train':
                continue
            for key in ('fault', 'feed', 'script', 'graph', 'evaluation',
                        'schedule', 'clip', 'remove'):
                if op[1].get(key):
                    p = copy.deepcopy(plan)
                    del p['ops'][i][1][key]
                    yield p
            f = op[1].get('fault')
            if f and f['op'] > 0:
                for k in (f['op'] // 2, f['op'] - 1):
                    p = copy.deepcopy(plan)
                    p['ops'][i][1]['fault']['op'] = k
                    yield p
            if op[1]['n'] > 1:
                p = copy.deepcopy(plan)
                p['ops'][i][1]['n'] -= 1
                yield p
        if len(plan['members']) > 1 and not any(
                op[0] == 'train' and op[1].get('script')
                for op in plan['ops']):
            yield dict(copy.deepcopy(plan), members=plan['members'][:-1])


class P19(FleetProp):
    id = 'P19'

    def nontrivial(self, plan, res):
        planned = any(o[1].get('fault') or o[1].get('feed')
                      for o in plan['ops'] if o[0] == 'train')
        return 'training completed' in res.probes and (
            not planned or bool(res.fired) or
            'training interrupted' in res.probes)

    def plan(self, rng, tier):
        members = gen_members(rng, 2)
        faulty = rng.choice([0., .5, .8])
        ops = []
        for _ in range(rng.choice([1, 2, 2, 3])):
            ops.append(['train', gen_train(rng, faulty, len(members) == 1)])
            if rng.random() < .4:
                ops.append(rng.choice([['restart'], gen_clock(rng)]))
        if ops[-1][0] == 'train' and (ops[-1][1].get('fault') or
                                      ops[-1][1].get('feed')):
            ops.append(['train', gen_train(rng, 0., len(members) == 1)])
        p = base(rng, ops, [rng.choice(DIRS)])
        p['bufsize'] = rng.choice([512, 8192, 8192])
        p['members'] = members
        return p


class P20(FleetProp):
    id = 'P20'

    def plan(self, rng, tier):
        members = gen_members(rng, 3)
        faulty = rng.choice([0., .4, .6])
        keep = rng.choice([None, 1, 1, 2])
        ops = []
        k = 0
        for _ in range(rng.choice([3, 5, 8])):
            x = rng.random()
            if x < .7:
                o = {}
                if rng.random() < .8:
                    o['max_keep'] = keep if keep and rng.random() < .7 else \
                        rng.choice([1, 2, 3, 4])
                if rng.random() < .25:
                    o['protected'] = True
                if rng.random() < .3 or k == 0 and rng.random() < .5:
                    o['via'] = 'save'
                if rng.random() < .2:
                    o['start'] = {}
                elif rng.random() < .3:
                    o['steps'] = rng.randrange(100)
                f = gen_fault(rng, [15, 40, 120, 300]) \
                    if rng.random() < faulty else None
                ops.append(['save', o, f])
                k += 1
            elif x < .76 and k:
                ops.append(['start', {}, gen_fault(rng, [15, 40, 120])
                            if rng.random() < faulty else None])
            elif x < .82:
                ops.append(['load', None if rng.random() < .5 else
                            rng.randrange(k + 2)])
            elif x < .9:
                ops.append(['restart'])
            else:
                ops.append(gen_clock(rng))
        ops.append(['save', {'max_keep': 2}, None])
        p = base(rng, ops, ['m'])
        p['bufsize'] = rng.choice([512, 8192, 8192])
        p['members'] = members
        return p


PROPS = [P19(), P20()]
