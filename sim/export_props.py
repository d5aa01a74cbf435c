"""P25: trained managers are exported, put together to ensembles and deployed;
transformations are created by their script."""
import contextlib
import copy
import io
import os

import click
import numpy as np
import ruamel.yaml as yaml
import tensorflow as tf

from . import disk as D
from . import storage as S
from . import train_models as TM
from . import train_props                                   # noqa: F401
from .pipeline import fail
from .storage import describe, gen_fault
from .store_props import StoreProp, base, gen_clock

from egenerator import create_trafo_model
from egenerator import export_manager
from egenerator.data.trafo import DataTransformer
from egenerator.manager.base import BaseModelManager
from egenerator.utils import configurator

for _name in ('set_intra_op_parallelism_threads',
              'set_inter_op_parallelism_threads'):
    setattr(tf.config.threading, _name, lambda n: None)


class Source(object):
    """A directory training has left a manager in."""

    def __init__(self, name):
        self.dir = name
        self.good = []      # states a default load may restore
        self.saved = False  # the component is completely saved


class Target(object):

    def __init__(self):
        # what a load may give: None (an error) or (states, config)
        self.may = [None]
        self.fits = None


class Workshop(object):

    def __init__(self, ctx):
        self.ctx = ctx
        self.plan = ctx.plan
        self.sources = [Source(ctx.path(d)) for d in self.plan['dirs']]
        self.targets = [Target() for d in self.plan['targets']]
        self.trafos = [[None] for d in self.plan['trafos']]
        self.asked = []
        self.answer = False
        with D.paused():
            for d in self.plan['dirs'] + self.plan['targets'] + \
                    self.plan['trafos']:
                os.makedirs(os.path.dirname(ctx.path(d)), exist_ok=True)
            h = TM.TinyHandler()
            h.configure(config={'data_handler': 'sim_tiny.TinyHandler'})
            for k in range(2):
                t = DataTransformer()
                t.configure(data_handler=h, data_iterator_settings={
                    'scale': 1. + k}, num_batches=2)
                t.save(ctx.path('made/trafo%d' % k))
            for i in range(len(self.sources)):
                self.write('source%d.yaml' % i, self.config(i))
            for j in range(self.plan['recos']):
                c = self.config(0)
                c['comment'] = 'reco %d' % j
                c['model_manager_settings']['config']['note'] = 'r%d' % j
                self.write('reco%d.yaml' % j, c)

    def write(self, name, config):
        with open(self.ctx.path(name), 'w') as f:
            f.write('# made by hand\n')
            yaml.dump(config, f, default_flow_style=False)
            if self.plan.get('crlf'):
                f.write('\r\n# end')

    def confirm(self, text, default=False, **kwargs):
        self.asked.append(text)
        return self.answer

    def disk(self, path):
        return os.path.splitext(self.ctx.path(path))[0]

    # -- sources -----------------------------------------------------------
    def config(self, i):
        members = self.plan['members'][i]
        c = {'unique_name': 'sim%d' % i,
             'data_handler_settings': {
                 'data_handler': 'sim_tiny.TinyHandler'},
             'data_trafo_settings': {'model_dir': 'none'},
             'loss_module_settings': {
                 'loss_module': 'sim.train_models.TinyLoss',
                 'config': {'l': 1}},
             'model_settings': {
                 'model_class': 'sim.train_models.TinySource',
                 'config': {'factor': 1.}},
             'reconstruction_settings': {
                 'seed': 'x_parameters', 'minimize_parameter_dict': {
                     'parameter_%d' % k: bool(k % 2) for k in range(40)}},
             'model_manager_settings': {
                 'model_manager_class':
                     'egenerator.manager.base.BaseModelManager',
                 'restore_model': True,
                 'config': {'manager_dir': self.sources[i].dir,
                            'members': len(members)}}}
        return c

    def build(self, i):
        h = TM.TinyHandler()
        h.configure(config={'data_handler': 'sim_tiny.TinyHandler'})
        t = DataTransformer()
        t.load(self.ctx.path('made/trafo%d' % self.plan['own'][i]))
        models = []
        for factor in self.plan['members'][i]:
            if isinstance(factor, list):
                m = TM.TinyMulti()
                bases = {}
                for k, f in enumerate(factor):
                    s = TM.TinySource()
                    s.configure(config={'factor': f}, data_trafo=t)
                    bases['b%d' % k] = s
                m.configure(config={'sources': {
                    's%d' % k: 'b%d' % k for k in range(len(factor))}},
                    base_sources=bases, data_trafo=t)
            else:
                m = TM.TinySource()
                m.configure(config={'factor': factor}, data_trafo=t)
            models.append(m)
        manager = BaseModelManager()
        manager.configure(config=self.config(i)['model_manager_settings'][
            'config'], data_handler=h, models=models)
        return manager

    def hypothesis(self, i):
        """What has to be the same for all members of an ensemble."""
        m = self.plan['members'][i][0]
        return self.plan['own'][i], len(m) if isinstance(m, list) else 0

    def states(self, models):
        return tuple((self.shape(m), tuple(TM.state(x)
                                           for x in TM.leaves(m)))
                     for m in models)

    def shape(self, m):
        return tuple(x.configuration.config['config']['factor']
                     for x in TM.leaves(m))

    def manager(self, i):
        m = self.ctx.memory.get(i)
        if m is None:
            with D.paused():
                m = self.build(i)
                s = self.sources[i]
                if s.saved:
                    try:
                        m.load_weights(self.disk(s.dir))
                    except Exception as e:
                        fail('lost', 'the weights of a source do not load: '
                             '%s', describe(e))
            self.ctx.memory[i] = m
        return m

    def train(self, i, o, fault):
        """Training has produced new weights."""
        ctx, s = self.ctx, self.sources[i]
        m = self.manager(i)
        for x in (x for model in m.models for x in TM.leaves(model)):
            TM.set_state(x, ctx.tag())
        sig = self.states(m.models)
        kw = {k: o[k] for k in ('max_keep', 'protected') if k in o}
        whole = o.get('whole') or not s.saved
        if whole:
            def fn():
                return m.save(s.dir, overwrite=True, **kw)
        else:
            def fn():
                return m.save_weights(self.disk(s.dir), **kw)
        what, val = ctx.attempt('train %d' % i, fn, fault)
        if what == 'error' and not ctx.disk.hit:
            fail('save', 'a source cannot be saved: %s', describe(val))
        if what in ('ok', 'done-died'):
            s.good = [sig]
            s.saved = True
        else:
            s.good.append(sig)
            ctx.probe('interrupted training')
        if what in ('crash', 'done-died'):
            ctx.restart()

    # -- export ------------------------------------------------------------
    def expectations(self, which):
        """All allowed states of an ensemble of these sources."""
        out = [()]
        for i in which:
            out = [a + b for a in out for b in self.sources[i].good]
        return out

    def rest(self, t):
        """Everything that is none of this target's business."""
        own = os.path.relpath(self.disk(self.plan['targets'][t]),
                              self.ctx.disk.root)
        return {k: v for k, v in D.snapshot(self.ctx.disk.root).items()
                if k != own and not k.startswith(own + os.sep)}

    def export(self, which, t, o, fault):
        ctx = self.ctx
        target = self.targets[t]
        path = ctx.path(self.plan['targets'][t])
        exists = os.path.exists(self.disk(path))
        first = 'source%d.yaml' % which[0]
        reco = None if o.get('reco') is None else 'reco%d.yaml' % o['reco']
        with D.paused():
            with open(ctx.path(reco or first), 'rb') as f:
                content = f.read()
            before = self.rest(t)
            all_before = D.snapshot(ctx.disk.root)
        self.asked = []
        self.answer = bool(o.get('confirm'))
        ctx.clock.jump(1.)

        def fn():
            with contextlib.redirect_stdout(io.StringIO()):
                return export_manager.main.callback(
                    tuple(ctx.path('source%d.yaml' % i) for i in which),
                    path, ctx.path(reco) if reco else None)
        what, val = ctx.attempt('export', fn, fault)
        with D.paused():
            if self.rest(t) != before:
                changed = [k for k, v in self.rest(t).items()
                           if before.get(k) != v] + [
                    k for k in before if k not in self.rest(t)]
                fail('foreign', 'the export changed %r', sorted(changed)[:4])
        if exists and not ctx.disk.hit and len(self.asked) != 1:
            fail('ask', 'an existing export is replaced, the user was asked '
                 '%d times', len(self.asked))
        if not exists and self.asked:
            fail('ask', 'the user is asked to delete what does not exist')
        if exists and (not self.answer or not self.asked):
            if what in ('ok', 'done-died'):
                fail('ask', 'an existing export is replaced against the '
                     'answer of the user')
            if D.snapshot(ctx.disk.root) != all_before:
                fail('ask', 'an export that is not to be replaced was '
                     'changed')
            ctx.probe('refused')
            if what in ('crash',):
                ctx.restart()
            return
        states = self.expectations(which)
        ready = all(self.sources[i].saved for i in which)
        fitting = len(set(self.hypothesis(i) for i in which)) == 1
        new = [(s, content, which[0]) for s in states]
        if what in ('ok', 'done-died'):
            if not all(self.sources[i].good for i in which):
                fail('ghost', 'a source that was never saved is exported')
            if not fitting:
                fail('mix', 'models that do not fit together are exported')
            target.may = new
            target.fits = self.hypothesis(which[0])
            ctx.probe('exported')
            if len(which) > 1:
                ctx.probe('ensemble exported')
            self.check(t)
        else:
            if what == 'error' and not ctx.disk.hit and ready and fitting:
                fail('export', 'the export fails: %s', describe(val))
            # the user agreed to lose the old one; a part of an export must
            # not be taken for one
            target.may = target.may + [None] + (new if fitting else [])
            if not fitting:
                ctx.probe('misfit rejected')
            ctx.probe('interrupted export')
            self.check(t)
        if what in ('crash', 'done-died'):
            ctx.restart()

    # -- use ---------------------------------------------------------------
    def open(self, which, reco=None):
        with contextlib.redirect_stdout(io.StringIO()):
            return configurator.ManagerConfigurator(
                [self.ctx.path(self.plan['targets'][t]) for t in which]
                if len(which) > 1 else
                self.ctx.path(self.plan['targets'][which[0]]),
                reco_config_dir=None if reco is None else
                self.ctx.path(self.plan['targets'][reco]),
                load_labels=True)

    def check(self, t):
        """What the export is now taken for."""
        target = self.targets[t]
        self.ctx.disk.note('check')
        with D.paused():
            try:
                c = self.open([t])
            except Exception as e:
                if None not in target.may:
                    fail('lost', 'the export does not load: %s', describe(e))
                target.may = [x for x in target.may if x is None]
                return
            got = self.states(c.manager.models)
            with open(os.path.join(self.disk(self.plan['targets'][t]),
                                   'reco_config.yaml'), 'rb') as f:
                content = f.read()
        fit = [x for x in target.may if x is not None and x[0] == got]
        if not fit:
            fail('wrong', 'the export holds %r, expected %s', got, ' or '.join(
                repr(x[0]) for x in target.may if x is not None) or 'nothing')
        fit = [x for x in fit if x[1] == content]
        target.fits = self.hypothesis(fit[0][2]) if fit else None
        if not fit:
            fail('config', 'the settings of the export are not the given '
                 'ones (%d bytes instead of %r)', len(content), sorted(set(
                     len(x[1]) for x in target.may if x is not None)))
        target.may = fit[:1]

    def use(self, which, reco):
        """Several exports make one ensemble."""
        ctx = self.ctx
        parts = [self.targets[t].may for t in which]
        what, val = ctx.attempt('use', lambda: self.open(which, reco))
        used = which if reco is None else which + [reco]
        fits = [self.targets[t].fits for t in which]
        if len(set(fits)) > 1 and what == 'ok':
            fail('mix', 'models that do not fit together are used')
        if what == 'error':
            if len(set(fits)) == 1 and all(
                    None not in self.targets[t].may for t in used):
                fail('lost', 'the exports do not load: %s', describe(val))
            return
        if any(self.targets[t].may == [None] for t in used):
            fail('ghost', 'an export that does not exist was loaded')
        got = self.states(val.manager.models)
        k = 0
        for t, may in zip(which, parts):
            ok = [x for x in may if x is not None and
                  got[k:k + len(x[0])] == x[0]]
            if not ok:
                fail('wrong', 'an ensemble of exports holds %r, expected %r '
                     'at %d', got, [x[0] for x in may if x is not None], k)
            k += len(ok[0][0])
        if k != len(got):
            fail('wrong', 'an ensemble of exports has %d members instead of '
                 '%d', len(got), k)
        with D.paused():
            with open(os.path.join(self.disk(self.plan['targets'][
                    which[0] if reco is None else reco]),
                    'reco_config.yaml')) as f:
                want = yaml.safe_load(f)
        note = want['model_manager_settings']['config'].get('note')
        have = val.manager.configuration.config['config'].get('note')
        if have != note:
            fail('config', 'the settings are those of %r instead of %r',
                 have, note)
        ctx.probe('ensemble used')

    # -- transformations ---------------------------------------------------
    def trafo(self, t, o, fault):
        """The script that creates a transformation."""
        ctx = self.ctx
        name = self.plan['trafos'][t]
        path = ctx.path(name)
        exists = os.path.exists(self.disk(name))
        scale = ctx.tag()
        with D.paused():
            conf = {'unique_name': 'trafo',
                    'data_handler_settings': {
                        'data_handler': 'sim_tiny.TinyHandler'},
                    'data_iterator_settings': {'trafo': {
                        'scale': float(scale)}, 'training': {'scale': -1.}},
                    'data_trafo_settings': {
                        'model_dir': path, 'num_batches': o.get('n', 2),
                        'float_precision': o.get('float', 'float64'),
                        'norm_constant': 1e-6}}
            self.write('trafo%d.yaml' % t, conf)
            own = os.path.relpath(self.disk(name), ctx.disk.root)

            def rest():
                return {k: v for k, v in D.snapshot(ctx.disk.root).items()
                        if k != own and not k.startswith(own + os.sep)}
            before, all_before = rest(), D.snapshot(ctx.disk.root)
        self.asked = []
        self.answer = bool(o.get('confirm'))

        def fn():
            with contextlib.redirect_stdout(io.StringIO()):
                return create_trafo_model.main.callback(
                    [ctx.path('trafo%d.yaml' % t)])
        what, val = ctx.attempt('trafo', fn, fault)
        with D.paused():
            if rest() != before:
                fail('foreign', 'the transformation script changed other '
                     'files')
        if exists and not ctx.disk.hit and len(self.asked) != 1:
            fail('ask', 'an existing transformation is replaced, the user '
                 'was asked %d times', len(self.asked))
        if exists and (not self.answer or not self.asked):
            if what in ('ok', 'done-died'):
                fail('ask', 'an existing transformation is replaced against '
                     'the answer of the user')
            if D.snapshot(ctx.disk.root) != all_before:
                fail('ask', 'a transformation that is not to be replaced was '
                     'changed')
            ctx.probe('refused')
        elif what in ('ok', 'done-died'):
            self.trafos[t] = [scale]
            ctx.probe('transformation created')
        else:
            if what == 'error' and not ctx.disk.hit:
                fail('trafo', 'the script fails: %s', describe(val))
            self.trafos[t] = self.trafos[t] + [None, scale]
            ctx.probe('interrupted transformation')
        if what in ('crash', 'done-died'):
            ctx.restart()
        self.check_trafo(t)

    def check_trafo(self, t):
        may = self.trafos[t]
        with D.paused():
            m = DataTransformer()
            try:
                m.load(self.ctx.path(self.plan['trafos'][t]))
            except Exception as e:
                if None not in may:
                    fail('lost', 'the transformation does not load: %s',
                         describe(e))
                return
            h = TM.TinyHandler()
            h.configure(config={'data_handler': 'sim_tiny.TinyHandler'})
            mean = np.array(m.data['x_parameters_mean'])
            std = np.array(m.data['x_parameters_std'])
        for s in may:
            if s is not None and np.allclose(mean, [s, 3. * s], rtol=1e-6) \
                    and np.allclose(std, [s, 2. * s], rtol=1e-6):
                return
        fail('wrong', 'the transformation is %r, %r, expected one of %r',
             mean, std, may)


def body(self, ctx):
    tf.config.run_functions_eagerly(True)
    real = click.confirm
    w = Workshop(ctx)
    click.confirm = w.confirm
    try:
        for op in ctx.plan['ops']:
            if op[0] == 'train':
                w.train(op[1], op[2], op[3])
            elif op[0] == 'export':
                w.export(op[1], op[2], op[3], op[4])
            elif op[0] == 'use':
                w.use(op[1], op[2])
            elif op[0] == 'trafo':
                w.trafo(op[1], op[2], op[3])
            elif op[0] == 'restart':
                ctx.restart()
            elif op[0] == 'clock':
                ctx.clock.jump(op[1])
        for t in range(len(w.targets)):
            w.check(t)
        for t in range(len(w.trafos)):
            w.check_trafo(t)
    finally:
        click.confirm = real


SOURCES = ['m', 'models/a', 'models/b', 'models/v1.2', 'a b', 'x.y/z']
TARGETS = ['out', 'exported/e', 'out.d/e', 'exported/v2.1', 'exp ort/x',
           'models/a_exported', 'models/ab']
TRAFOS = ['trafo', 'trafos/t.v1', 'models/trafo_model']


class P25(StoreProp):
    id = 'P25'
    body = body

    def nontrivial(self, plan, res):
        return any(k in res.probes for k in (
            'exported', 'transformation created', 'refused'))

    def plan(self, rng, tier):
        n = rng.choice([1, 1, 2, 2, 3])
        kind = rng.random() < .25
        members = []
        odd = rng.random()
        for _ in range(n):
            k = rng.choice([1, 1, 1, 2])
            if kind:
                w = rng.choice([1, 2]) if odd < .2 else 1 + (odd < .6)
                members.append([[rng.choice([1., .5, 2.]) for _ in range(w)]
                                for _ in range(k)])
            else:
                members.append([rng.choice([1., .5, 2., 3.])
                                for _ in range(k)])
        nt = rng.choice([1, 1, 2])
        faulty = rng.choice([0., .3, .6])
        p = base(rng, [], rng.sample(SOURCES, n))
        p['members'] = members
        p['own'] = [int(rng.random() < .3) if odd > .85 else 0
                    for _ in range(n)]
        p['targets'] = rng.sample(TARGETS, nt)
        p['trafos'] = rng.sample(TRAFOS, 1) if rng.random() < .4 else []
        p['recos'] = rng.choice([0, 1, 2])
        if rng.random() < .2:
            p['crlf'] = True
        ops = [['train', i, {}, None] for i in range(n)
               if rng.random() < .92]

        def fault(span):
            if rng.random() >= faulty:
                return None
            f = gen_fault(rng, span)
            x = rng.random()
            if x < .4:
                f['writes'] = True
            elif x < .6 and max(span) > 200:
                f.update(match='reco_config', op=rng.randrange(3))
            return f

        def export():
            which = rng.sample(range(n), rng.randint(1, n))
            if rng.random() < .1:
                which.append(rng.choice(which))
            o = {'confirm': rng.random() < .8}
            if p['recos'] and rng.random() < .5:
                o['reco'] = rng.randrange(p['recos'])
            return ['export', which, rng.randrange(nt), o,
                    fault([30, 100, 250])]
        for _ in range(rng.choice([2, 3, 4, 6])):
            x = rng.random()
            if x < .45:
                ops.append(export())
            elif x < .62:
                o = {}
                if rng.random() < .6:
                    o['max_keep'] = rng.choice([1, 2, 3])
                if rng.random() < .2:
                    o['protected'] = True
                if rng.random() < .3:
                    o['whole'] = True
                ops.append(['train', rng.randrange(n), o,
                            fault([15, 40, 120])])
            elif x < .72:
                which = [rng.randrange(nt) for _ in range(
                    rng.choice([1, 2, 2]))]
                ops.append(['use', which, rng.randrange(nt)
                            if rng.random() < .3 else None])
            elif x < .86 and p['trafos']:
                ops.append(['trafo', 0, {
                    'confirm': rng.random() < .7, 'n': rng.choice([1, 2, 5]),
                    'float': rng.choice(['float64', 'float32'])},
                    fault([5, 15, 40])])
            elif x < .94:
                ops.append(['restart'])
            else:
                ops.append(gen_clock(rng))
        if rng.random() < .8:
            e = export()
            e[3]['confirm'] = True
            e[4] = None
            ops.append(e)
        p['ops'] = ops
        return p

    def shrink(self, plan):
        for p in StoreProp.shrink(self, plan):
            yield p
        for i, op in enumerate(plan['ops']):
            if op[0] in ('export', 'use') and len(op[1]) > 1:
                for k in range(len(op[1])):
                    p = copy.deepcopy(plan)
                    del p['ops'][i][1][k]
                    yield p
        for i, m in enumerate(plan['members']):
            if len(m) > 1:
                p = copy.deepcopy(plan)
                p['members'][i] = m[:1]
                yield p


PROPS = [P25()]
