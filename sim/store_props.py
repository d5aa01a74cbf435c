"""P13-P16: checkpoints and training history."""
import copy
import os
import re

import numpy as np
import ruamel.yaml as yaml

from . import storage as S
from . import disk as D
from . import storage_models as SM
from .pipeline import fail
from .storage import gen_fault, describe

CKPT = re.compile(r'^model_checkpoint_(\d{8,})\.(index|data-\d{5}-of-\d{5})$')


class StoreProp(object):
    body = None

    def run(self, plan, keep_log=False):
        return S.run(plan, self.body, keep_log)

    def known(self, plan, violation):
        from . import findings
        return findings.match(self.id, plan, violation) is not None

    def nontrivial(self, plan, res):
        return res.api_calls >= 2

    def sample(self, plan, res):
        return {'plan': {k: v for k, v in plan.items()
                         if k not in ('seed', 'property')},
                'file_operations': res.steps, 'fired': res.fired,
                'trace_hash': '%08x' % res.hash}

    def shrink(self, plan):
        for i in range(len(plan['ops'])):
            p = copy.deepcopy(plan)
            del p['ops'][i]
            yield p
        for i, op in enumerate(plan['ops']):
            for j, x in enumerate(op):
                if isinstance(x, dict) and 'op' in x and x['op'] > 0:
                    for k in (x['op'] // 2, x['op'] - 1):
                        p = copy.deepcopy(plan)
                        p['ops'][i][j]['op'] = k
                        yield p
                    for key in ('partial', 'sticky'):
                        if x.get(key):
                            p = copy.deepcopy(plan)
                            del p['ops'][i][j][key]
                            yield p
                if isinstance(x, dict) and 'type' in x:
                    p = copy.deepcopy(plan)
                    p['ops'][i][j] = None
                    yield p
        for key in ('foreign',):
            for i in range(len(plan.get(key, ()))):
                p = copy.deepcopy(plan)
                del p[key][i]
                yield p
        if plan.get('bufsize') != 8192:
            yield dict(plan, bufsize=8192)


# ---------------------------------------------------------------- model ----
class Ref(object):
    """What should be in one checkpoint directory."""

    def __init__(self):
        self.entries = {}       # number -> (protected, weights, sure)
        self.latest = 0
        self.component = None   # a full save() has completed

    def due(self, max_keep, extra=None):
        un = sorted(n for n, e in self.entries.items() if not e[0])
        if extra is not None:
            un = un + [extra]
        return un[:-max_keep] if len(un) > max_keep else []

    def commit(self, n, protected, sig, max_keep):
        self.entries[n] = (protected, sig, True)
        self.latest = n
        if not protected:
            for k in self.due(max_keep):
                del self.entries[k]

    def sure(self):
        return sorted(n for n, e in self.entries.items() if e[2])


class Weights(object):
    """Saves and loads of several models, each in its own directory."""

    strict_listing = True
    faults = False

    def __init__(self, ctx):
        self.ctx = ctx
        self.refs = {}
        self.names = ctx.plan['dirs']
        for i in range(len(self.names)):
            self.refs[i] = Ref()

    def dir(self, i):
        return self.ctx.path(self.names[i])

    def config(self, i):
        return {'n': 2 + i}

    def model(self, i):
        m = self.ctx.memory.get(i)
        if m is None:
            m = SM.TinyModel()
            m.configure(config=self.config(i))
            self.ctx.memory[i] = m
        return m

    # -- observation -------------------------------------------------------
    def load(self, i, number, how='weights', model=None):
        """('ok', weights) or ('error', exception)."""
        try:
            if how == 'component':
                m = SM.TinyModel()
                if number is None:
                    m.load(self.dir(i))
                else:
                    m.load(self.dir(i), checkpoint_number=number)
                if not m.is_configured:
                    fail('load', 'loaded model is not configured')
            else:
                m = model
                if m is None:
                    m = SM.TinyModel()
                    m.configure(config=self.config(i))
                SM.clear(m)
                if number is None:
                    m.load_weights(self.dir(i))
                else:
                    m.load_weights(self.dir(i), checkpoint_number=number)
        except Exception as e:
            return 'error', e
        return 'ok', SM.weights(m)

    def probe(self, i, model=None):
        """Compare everything that can be loaded with the reference."""
        ref = self.refs[i]
        with D.paused():
            for n in list(range(0, ref.latest + 3)) + [None]:
                self.check_one(i, n, 'weights', model)
            if ref.component:
                self.check_one(i, None, 'component')
                for n in sorted(ref.entries)[-1:]:
                    self.check_one(i, n, 'component')

    def check_one(self, i, n, how, model=None):
        ref = self.refs[i]
        what, got = self.load(i, n, how, model)
        num = ref.latest if n is None else n
        name = 'default load' if n is None else 'checkpoint %d' % n
        e = ref.entries.get(num)
        if e is None:
            if what == 'ok':
                fail('ghost', '%s of model %d loads %r but should not exist',
                     name, i, got)
            return
        if what != 'ok':
            if e[2]:
                fail('lost', '%s of model %d does not load (%s): %s', name,
                     i, how, describe(got))
            return
        if got != e[1]:
            fail('wrong', '%s of model %d (%s) restores %r, saved was %r',
                 name, i, how, got, e[1])

    def listing(self, i):
        ref = self.refs[i]
        want = set(ref.entries)
        have = {}
        folder = self.dir(i)
        with D.paused():
            names = sorted(os.listdir(folder)) if os.path.isdir(folder) \
                else []
        for f in names:
            m = CKPT.match(f)
            if m:
                have.setdefault(int(m.group(1)), set()).add(
                    m.group(2)[:5])
        foreign = set(self.foreign_numbers(i))
        if set(have) - foreign != want:
            fail('files', 'checkpoint files of %r exist, loadable are %r',
                 sorted(have), sorted(want))
        for n in want:
            if have[n] != {'index', 'data-'}:
                fail('files', 'checkpoint %d has files %r', n,
                     sorted(have[n]))

    def foreign_numbers(self, i):
        return ()

    def foreign_names(self, i):
        return ()

    # -- operations --------------------------------------------------------
    def save(self, i, opt, fault):
        ctx, ref = self.ctx, self.refs[i]
        m = self.model(i)
        tag = ctx.tag()
        SM.set_weights(m, tag)
        sig = SM.weights(m)
        kw = {}
        for k in ('max_keep', 'protected', 'description'):
            if k in opt:
                kw[k] = opt[k]
        max_keep = opt.get('max_keep', 3)
        protected = opt.get('protected', False)
        via = opt.get('via', 'save_weights')
        if via == 'save':
            def fn():
                return m.save(self.dir(i), overwrite=True, **kw)
        else:
            def fn():
                return m.save_weights(self.dir(i), **kw)
        what, val = ctx.attempt('save %d' % i, fn, fault)
        new = ref.latest + 1
        if what in ('ok', 'done-died'):
            ref.commit(new, protected, sig, max_keep)
            if via == 'save':
                ref.component = True
            if what == 'done-died':
                ctx.restart()
                self.probe(i)
            if self.strict_listing:
                self.listing(i)
            return
        if what == 'error' and not ctx.disk.hit:
            fail('save', 'saving checkpoint %d of model %d fails: %s', new,
                 i, describe(val))
        if what == 'crash':
            ctx.restart()
        ctx.probe('interrupted save')
        self.resolve(i, new, protected, sig, max_keep)

    def resolve(self, i, new, protected, sig, max_keep):
        """After an interrupted save: what is the state now?"""
        ref = self.refs[i]
        due = [] if protected else ref.due(max_keep, new)
        for k in due:
            e = ref.entries[k]
            ref.entries[k] = (e[0], e[1], False)
        with D.paused():
            what, got = self.load(i, None)
        old = ref.entries.get(ref.latest)
        if what == 'ok' and got == sig:
            ref.entries[new] = (protected, sig, True)
            ref.latest = new
            self.ctx.probe('interrupted save had committed')
        elif what == 'ok' and old is not None and got == old[1]:
            self.ctx.probe('interrupted save had no effect')
        elif what == 'ok':
            fail('wrong', 'after an interrupted save of checkpoint %d the '
                 'default load restores %r', new, got)
        elif old is not None and old[2]:
            fail('lost', 'after an interrupted save of checkpoint %d '
                 'nothing loads: %s', new, describe(got))
        self.probe(i)

    def op_load(self, i, n):
        """A load in the middle of the history, into the living model."""
        ref = self.refs[i]
        m = self.model(i)
        SM.clear(m)
        num = ref.latest if n is None else n
        e = ref.entries.get(num)
        box = []

        def fn():
            if n is None:
                m.load_weights(self.dir(i))
            else:
                m.load_weights(self.dir(i), checkpoint_number=n)
        what, val = self.ctx.attempt('load %d' % i, fn)
        if what == 'error':
            if e is not None and e[2]:
                fail('lost', 'checkpoint %d does not load: %s', num,
                     describe(val))
        elif e is None:
            fail('ghost', 'checkpoint %d should not exist', num)
        elif SM.weights(m) != e[1]:
            fail('wrong', 'checkpoint %d restores %r, saved was %r', num,
                 SM.weights(m), e[1])


def weights_body(cls):
    def body(self, ctx):
        w = cls(ctx)
        w.start()
        for op in ctx.plan['ops']:
            name = op[0]
            if name == 'save':
                w.save(op[1], op[2], op[3])
            elif name == 'load':
                w.op_load(op[1], op[2])
            elif name == 'restart':
                ctx.restart()
            elif name == 'clock':
                ctx.clock.jump(op[1])
            elif name == 'probe':
                w.probe(op[1], w.model(op[1]))
            else:
                w.other(op)
        for i in range(len(w.names)):
            w.probe(i)
        w.final()
    return body


def _start(self):
    pass


Weights.start = _start
Weights.final = _start


def gen_save(rng, keep=None, via=True):
    o = {}
    if rng.random() < .85:
        o['max_keep'] = keep if keep and rng.random() < .7 else \
            rng.choice([1, 1, 2, 2, 3, 4, 6])
    if rng.random() < .25:
        o['protected'] = True
    if rng.random() < .15:
        o['description'] = rng.choice(['', 'a: b', 'End of training step',
                                       '{0}', u'\u00fc'])
    if via and rng.random() < .3:
        o['via'] = 'save'
    return o


def gen_clock(rng):
    return ['clock', rng.choice([-1, 1]) * 10 ** rng.uniform(-1, 9)]


def base(rng, ops, dirs):
    return {'dirs': dirs, 'ops': ops, 'order': rng.randrange(1000),
            'bufsize': rng.choice([48, 128, 512, 8192])}


class P13(StoreProp):
    id = 'P13'
    body = weights_body(Weights)

    def plan(self, rng, tier):
        n = rng.choice([1, 1, 1, 2])
        keep = rng.choice([None, 1, 2, 3])
        ops = []
        k = 0
        for _ in range(rng.choice([4, 8, 12, 16])):
            i = rng.randrange(n)
            x = rng.random()
            if x < .65:
                ops.append(['save', i, gen_save(rng, keep), None])
                k += 1
            elif x < .78:
                ops.append(['load', i, None if rng.random() < .4 else
                            rng.randrange(0, k + 3)])
            elif x < .88:
                ops.append(['restart'])
            elif x < .96:
                ops.append(gen_clock(rng))
            else:
                ops.append(['probe', i])
        return base(rng, ops, ['m%d' % i for i in range(n)])


class Crashy(Weights):
    strict_listing = False


class P14(StoreProp):
    id = 'P14'
    body = weights_body(Crashy)

    def plan(self, rng, tier):
        ops = []
        keep = rng.choice([None, 1, 2, 3])
        train = rng.random() < .0
        for _ in range(rng.choice([2, 3, 5, 8])):
            f = None
            x = rng.random()
            if x < .45:
                f = gen_fault(rng, [5, 9, 16, 40])
            ops.append(['save', 0, gen_save(rng, keep), f])
            if rng.random() < .15:
                ops.append(rng.choice([['restart'], gen_clock(rng)]))
        if ops[-1][0] == 'save' and ops[-1][3] is not None or \
                rng.random() < .5:
            ops.append(['save', 0, gen_save(rng, keep), None])
        return base(rng, ops, ['m0'])

    def nontrivial(self, plan, res):
        return any(k != 'crash after return' for k in res.fired)


# ----------------------------------------------------------------- P15 -----
ODD = ['m', 'm1', 'm[1]', '[m]', 'm*', '?', 'm?', 'a b', '{0}', '{}', '{x}',
       'm{1}', u'\u00fcber', "m'1", 'm"', '#m', '%s', '%d', '$HOME', '~',
       'm;1', '[!m]', 'model_checkpoint_00000001', 'training', '-rf',
       'm\\1', 'model_checkpoint', 'm, n', '&m', 'null', '1']
DOTTED = ['m.1', 'v1.0', '.hidden', 'm.index', 'm.']
FOREIGN = ['model_checkpoint_%08d.tar.gz', 'model_checkpoint_%08d.index.bak',
           'model_checkpoint_%08d.json', 'model_checkpoint_%08d.txt',
           'model_checkpoint_%08d.best.index',
           'model_checkpoint_%08d.data', 'model_checkpoint_%08d',
           'model_checkpoint_%08d_copy.index', 'copy_of_model_checkpoint_%08d'
           '.index', 'model_checkpoint_%09d0.index', 'notes.txt',
           'checkpoint', 'model.yaml', 'data.pickle.old',
           'configuration.yaml.bak', 'export/model_checkpoint_%08d.index',
           'export/model_checkpoint.yaml', 'model_checkpoint_1.index',
           'x_training/step_0001/training_config.yaml',
           'training_old/training_steps.yaml', 'step_0001/notes',
           'model_checkpoint_%08d.index.d/file']
OUTSIDE = ['model_checkpoint_%08d.index', 'model_checkpoint.yaml',
           'model_checkpoint_%08d.data-00000-of-00001', 'data.pickle',
           'configuration.yaml', 'readme.txt', 'training/training_steps.yaml',
           'model 1/model_checkpoint_%08d.index']


class Neighbours(Weights):
    """Several writers side by side among files of other people."""

    strict_listing = False

    def start(self):
        self.own = {}
        self.blocked = set()
        for rel, text in self.ctx.plan['foreign']:
            p = self.ctx.path(rel)
            with D.paused():
                if os.path.isdir(p):
                    continue
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, 'w') as f:
                    f.write(text)
        self.foreign = set(D.snapshot(self.ctx.disk.root))
        self.last = D.snapshot(self.ctx.disk.root)

    def comp_dir(self, j):
        return self.ctx.path(self.ctx.plan['comps'][j])

    def check(self, owner, folder, what):
        now = D.snapshot(self.ctx.disk.root)
        own = self.own.setdefault(owner, set())
        rel = os.path.relpath(folder, self.ctx.disk.root)
        for p in sorted(set(now) | set(self.last)):
            if now.get(p, 0) == self.last.get(p, 0):
                continue
            inside = p == rel or p.startswith(rel + os.sep) or \
                rel.startswith(p + os.sep)
            how = 'deleted' if p not in now else (
                'created' if p not in self.last else 'modified')
            if not inside:
                fail('outside', '%s in %r has %s %r', what, rel, how, p)
            if how == 'created':
                own.add(p)
            elif p not in own:
                fail('foreign', '%s in %r has %s %r', what, rel, how, p)
        self.last = now

    def save(self, i, opt, fault):
        ref = self.refs[i]
        n = ref.latest + 1
        index = os.path.join(self.names[i], 'model_checkpoint_%08d.index' % n)
        if index in self.last and index not in self.own.get(('m', i), ()):
            # somebody else's file is in the way
            m = self.model(i)
            SM.set_weights(m, self.ctx.tag())
            what, val = self.ctx.attempt(
                'blocked save', lambda: m.save_weights(self.dir(i)))
            self.ctx.probe('foreign file in the way')
            if what == 'ok':
                self.check(('m', i), self.dir(i), 'save_weights')
                fail('foreign', 'saved over %r', index)
            now = D.snapshot(self.ctx.disk.root)
            if now.get(index) != self.last[index]:
                fail('foreign', 'save_weights has changed %r', index)
            self.check(('m', i), self.dir(i), 'failed save_weights')
            return
        Weights.save(self, i, opt, fault)
        self.check(('m', i), self.dir(i), 'save')

    def probe(self, i, model=None):
        # TensorFlow itself cannot read from directories with wildcards
        if not set(self.names[i]) & set('*?[]\\\\'):
            Weights.probe(self, i, model)

    def op_load(self, i, n):
        if not set(self.names[i]) & set('*?[]\\\\'):
            Weights.op_load(self, i, n)
        if D.snapshot(self.ctx.disk.root) != self.last:
            fail('outside', 'loading has changed files')

    def other(self, op):
        ctx = self.ctx
        if op[0] == 'comp':
            c = make_component(op[2])
            d = self.comp_dir(op[1])
            what, val = ctx.attempt(
                'component', lambda: c.save(d, overwrite=True))
            if what != 'ok':
                fail('save', 'saving a component fails: %s', describe(val))
            self.check(('c', op[1]), d, 'save of a component')
        elif op[0] == 'train':
            i = op[1]
            m = self.model(i)
            comp = make_component(op[2])
            what, val = ctx.attempt(
                'train', lambda: m.save_training_settings(
                    self.dir(i), {'config': {'a': 1},
                                  'components': {'loss_module': comp}}))
            if what != 'ok':
                fail('save', 'saving training settings fails: %s',
                     describe(val))
            self.check(('m', i), self.dir(i), 'save_training_settings')
        elif op[0] == 'progress':
            i = op[1]
            m = self.model(i)
            what, val = ctx.attempt(
                'progress', lambda: m.update_num_training_steps(
                    self.dir(i), op[2]))
            if what != 'ok':
                fail('save', 'update_num_training_steps fails: %s',
                     describe(val))
            self.check(('m', i), self.dir(i), 'update_num_training_steps')

    def final(self):
        if D.snapshot(self.ctx.disk.root) != self.last:
            fail('outside', 'loading has changed files')


def make_component(spec):
    """A component tree of [settings, {name: child}]."""
    children = {k: make_component(v) for k, v in spec[1].items()}
    c = SM.TinyComponent()
    c.configure(config=spec[0], mut=spec[0].get('m'), children=children)
    return c


class P15(StoreProp):
    id = 'P15'
    body = weights_body(Neighbours)

    def plan(self, rng, tier):
        n = rng.choice([1, 2, 2, 3])
        names = rng.sample(ODD, n)
        if rng.random() < .3:
            # similar names
            stem = rng.choice(['m', 'ab'])
            names = rng.sample([stem, stem + '[1]', stem + '1', stem + '*',
                                stem + '?', stem + ' 1', '[' + stem + ']',
                                stem + '2', stem + '{0}'], n)
        if n > 1 and rng.random() < .3:
            names[1] = names[0] + '/' + names[1]
        comps = []
        for _ in range(rng.choice([0, 0, 1, 2])):
            c = rng.choice([x for x in ODD if x not in names and
                            not any(y.startswith(x + '/') for y in names)])
            comps.append(c if rng.random() < .7 else names[0] + '/' + c)
        comps = sorted(set(comps))
        dotted = rng.random() < .15
        if dotted:
            names[-1] = rng.choice(DOTTED)
        foreign = []
        for _ in range(rng.choice([0, 2, 5])):
            where = rng.choice(names + comps)
            f = rng.choice(FOREIGN)
            if '%' in f:
                f = f % rng.randint(1, 5)
            foreign.append([where + '/' + f, 'foreign %d' % rng.randrange(99)])
        for _ in range(rng.choice([0, 1, 4])):
            where = rng.choice(['.', 'other', rng.choice(ODD), 'm1', 'm 1'])
            if any(where == x or x.startswith(where + '/')
                   for x in names + comps):
                continue
            f = rng.choice(OUTSIDE)
            if '%' in f:
                f = f % rng.randint(1, 4)
            foreign.append([where + '/' + f, 'foreign %d' % rng.randrange(99)])
        if rng.random() < .08:
            foreign.append([rng.choice(names) + '/model_checkpoint_%08d.index'
                            % rng.randint(1, 3), 'not a checkpoint'])
        foreign = [[os.path.normpath(a), b] for a, b in foreign]
        # nobody puts a file where a directory has to be
        dirs = set()
        for d in names + comps + [os.path.dirname(a) for a, b in foreign]:
            while d:
                dirs.add(os.path.normpath(d))
                d = os.path.dirname(d)
        foreign = [f for f in foreign if f[0] not in dirs]
        keep = rng.choice([1, 1, 2])
        ops = []
        trained = set()
        for _ in range(rng.choice([4, 6, 9, 12])):
            i = rng.randrange(n)
            x = rng.random()
            if x < .6:
                ops.append(['save', i, gen_save(
                    rng, keep, via='.' not in names[i]), None])
            elif x < .7:
                ops.append(['load', i, None])
            elif x < .8 and comps:
                ops.append(['comp', rng.randrange(len(comps)), gen_tree(rng)])
            elif x < .9 and '.' not in names[i]:
                ops.append(['train', i, gen_tree(rng)])
                trained.add(i)
            elif i in trained:
                ops.append(['progress', i, rng.randrange(100)])
            else:
                ops.append(['restart'])
        p = base(rng, ops, names)
        p['foreign'] = foreign
        p['comps'] = comps
        return p

    def shrink(self, plan):
        for p in StoreProp.shrink(self, plan):
            # progress needs an earlier training
            seen = set()
            good = True
            for op in p['ops']:
                if op[0] == 'train':
                    seen.add(op[1])
                if op[0] == 'progress' and op[1] not in seen:
                    good = False
            if good:
                yield p


def gen_tree(rng, depth=2):
    conf = {'a': rng.randrange(5), 'data': rng.choice([0, 1, 3, 40])}
    kids = {}
    if depth:
        for k in range(rng.choice([0, 0, 1, 2])):
            kids[rng.choice(['child', 'k%d' % k, 'data_trafo', 'a b'])] = \
                gen_tree(rng, depth - 1)
    return [conf, kids]


# ----------------------------------------------------------------- P16 -----
class History(object):
    """Training starts and progress reports of one model."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.dir = ctx.path(ctx.plan['dirs'][0])
        self.records = []         # [config, components, steps (a set)]
        self.saved = 0

    def model(self):
        m = self.ctx.memory.get('m')
        if m is None:
            m = SM.TinyModel()
            m.configure(config={'n': 2})
            self.ctx.memory['m'] = m
        return m

    # -- observation -------------------------------------------------------
    def read(self):
        """List of (config, {name: (configuration, data)}, steps, entry)."""
        with D.paused():
            f = os.path.join(self.dir, 'training', 'training_steps.yaml')
            if not os.path.exists(f):
                return []
            try:
                with open(f) as stream:
                    meta = yaml.safe_load(stream)
                steps = meta['training_steps']
                latest = meta['latest_step']
            except Exception as e:
                fail('history', 'training history is unreadable: %s',
                     describe(e))
            if sorted(steps) != list(range(1, len(steps) + 1)) or \
                    latest != len(steps):
                fail('history', 'records %r, latest_step %r', sorted(steps),
                     latest)
            out = []
            for k in sorted(steps):
                folder = os.path.join(self.dir, 'training', 'step_%04d' % k)
                try:
                    with open(os.path.join(
                            folder, 'training_config.yaml')) as stream:
                        conf = yaml.load(stream, Loader=yaml.Loader)
                except Exception as e:
                    fail('record', 'configuration of training %d is '
                         'unreadable: %s', k, describe(e))
                comps = {}
                for name in sorted(os.listdir(folder)):
                    p = os.path.join(folder, name)
                    if not os.path.isdir(p):
                        continue
                    c = SM.TinyComponent()
                    try:
                        c.load(p)
                    except Exception as e:
                        fail('record', 'component %r of training %d does '
                             'not load: %s', name, k, describe(e))
                    comps[name] = image(c)
                try:
                    num = steps[k]['num_training_steps']
                except Exception as e:
                    fail('history', 'record of training %d is unreadable: %s',
                         k, describe(e))
                out.append((conf, comps, num))
        return out

    def compare(self, got, k, rec):
        conf, comps, steps = got
        if conf != rec[0]:
            fail('record', 'training %d has configuration %r, started with '
                 '%r', k, conf, rec[0])
        if set(comps) != set(rec[1]):
            fail('record', 'training %d has components %r, started with %r',
                 k, sorted(comps), sorted(rec[1]))
        for n in comps:
            if not same_image(comps[n], rec[1][n]):
                fail('record', 'component %r of training %d differs', n, k)
        if steps not in rec[2]:
            fail('steps', 'training %d has %r iterations, reported %r', k,
                 steps, sorted(rec[2]))

    def check(self, pending=None):
        """Every earlier record is intact; returns the number of records."""
        got = self.read()
        want = list(self.records)
        if pending is not None and len(got) == len(want) + 1:
            want.append(pending)
            self.records.append(pending)
            self.ctx.probe('interrupted start had committed')
        if len(got) != len(want):
            fail('history', '%d training records, expected %d', len(got),
                 len(want))
        for k, (g, r) in enumerate(zip(got, want)):
            self.compare(g, k + 1, r)
        # what was read is now known for certain
        for g, r in zip(got, want):
            r[2] = set([g[2]])

    # -- operations --------------------------------------------------------
    def start(self, op):
        _, conf, trees, via, fault = op
        m = self.model()
        comps = {n: make_component(t) for n, t in trees.items()}
        rec = [copy.deepcopy(conf), {n: image(c) for n, c in comps.items()},
               set([0])]
        settings = {'config': conf, 'components': comps}
        if via == 'save':
            def fn():
                return m.save(self.dir, overwrite=True,
                              new_training_settings=settings, protected=True)
        else:
            def fn():
                return m.save_training_settings(self.dir, settings)
        self.ctx.clock.jump(1.)
        what, val = self.ctx.attempt('start training', fn, fault)
        if what in ('ok', 'done-died'):
            self.records.append(rec)
            if what == 'done-died':
                self.ctx.restart()
            self.check()
            return
        if what == 'error' and not self.ctx.disk.hit:
            fail('start', 'starting training %d fails: %s',
                 len(self.records) + 1, describe(val))
        if what == 'crash':
            self.ctx.restart()
        self.ctx.probe('interrupted training start')
        self.check(rec)

    def progress(self, op):
        _, n, via, fault = op
        m = self.model()
        rec = self.records[-1] if self.records else None
        if via == 'weights':
            def fn():
                return m.save_weights(self.dir, num_training_steps=n,
                                      max_keep=2)
        else:
            def fn():
                return m.update_num_training_steps(self.dir, n)
        what, val = self.ctx.attempt('progress', fn, fault)
        if rec is None:
            if what in ('ok', 'done-died'):
                fail('steps', 'progress of no training at all was accepted')
            if what == 'crash':
                self.ctx.restart()
            self.check()
            return
        if what in ('ok', 'done-died'):
            rec[2] = set([n])
            if what == 'done-died':
                self.ctx.restart()
            self.check()
            return
        if what == 'error' and not self.ctx.disk.hit:
            fail('steps', 'reporting %d iterations fails: %s', n,
                 describe(val))
        if what == 'crash':
            self.ctx.restart()
        self.ctx.probe('interrupted progress report')
        rec[2] = rec[2] | set([n])
        self.check()


def image(c):
    """Everything a component is made of, as plain values."""
    return [c.configuration.dict, c.data,
            {n: image(s) for n, s in c.sub_components.items()}]


def same_image(a, b):
    return a[0] == b[0] and SM.same_data(a[1], b[1]) and \
        set(a[2]) == set(b[2]) and all(
            same_image(a[2][n], b[2][n]) for n in a[2])


def history_body(self, ctx):
    h = History(ctx)
    for op in ctx.plan['ops']:
        if op[0] == 'start':
            h.start(op)
        elif op[0] == 'progress':
            h.progress(op)
        elif op[0] == 'restart':
            ctx.restart()
        elif op[0] == 'clock':
            ctx.clock.jump(op[1])
    h.check()


class P16(StoreProp):
    id = 'P16'
    body = history_body

    def plan(self, rng, tier):
        ops = []
        p_fault = rng.choice([0., .3, .6])
        for _ in range(rng.choice([3, 5, 8, 10])):
            f = None
            if rng.random() < p_fault:
                f = gen_fault(rng, [5, 12, 25, 60])
            x = rng.random()
            if x < .45:
                names = rng.sample(['loss_module', 'evaluation_module',
                                    'other'], rng.choice([0, 1, 1, 2, 3]))
                conf = {'run': rng.randrange(1000), 'nested': {
                    'lr': rng.choice([1e-3, 0.5]), 'l': [1, 'two', None]}}
                ops.append(['start', conf,
                            {n: gen_tree(rng, 1) for n in names},
                            rng.choice(['settings', 'settings', 'save']), f])
            elif x < .85:
                ops.append(['progress', rng.randrange(10000),
                            rng.choice(['update', 'update', 'weights']), f])
            elif x < .95:
                ops.append(['restart'])
            else:
                ops.append(gen_clock(rng))
        ops.append(['start', {'run': 'last'}, {'loss_module': gen_tree(
            rng, 1)}, 'settings', None])
        return base(rng, ops, ['m0'])


PROPS = [P13(), P14(), P15(), P16()]
