"""P17, P18: saving and loading trees of components."""
import copy
import os

import egenerator
import numpy as np

from . import storage as S
from . import disk as D
from . import storage_models as SM
from .pipeline import fail
from .storage import gen_fault, describe
from .store_props import StoreProp, base

VERSION = egenerator.__version__


# --------------------------------------------------------------- trees -----
def build(spec):
    """The real component of a description."""
    kids = {n: build(s) for n, s in spec.get('children', {}).items()}
    cls = SM.OtherComponent if spec.get('other') else SM.TinyComponent
    c = cls()
    SM.SALT[0] = spec.get('salt', 0)
    c.configure(config=plain(spec['config']), mut=plain(spec.get('mut')),
                children=kids, loose=list(spec.get('loose', ())))
    return c


VALUES = {
    'i': 3, 'f': 1e-05, 's': 'text', 'yes': 'yes', 'num': '12', 'none': None,
    'nulls': 'null', 'date': '2020-01-01', 'multi': ' lead trail ',
    'list': [1, 'two', [3.5, None]], 'tuple': (1, (2, 'x')), 'dict': {
        'a': {1: 'one', 'b': [True, False]}}, 'empty': {}, 'uni': u'\u00fc\u2603',
    'colon': 'a: b # c', 'brace': '{x}', 'true': True, 'inf': float('inf'),
    'big': 2 ** 70, 'neg': -0.1, 'estr': '1e5', 'blank': '', 'pct': '%d',
}


def plain(key):
    """Replace value names of a description by the values."""
    if isinstance(key, dict):
        return {k: plain(v) for k, v in key.items()}
    if isinstance(key, str) and key.startswith('@'):
        return copy.deepcopy(VALUES[key[1:]])
    return key


def strip(conf):
    """A configuration without the provenance of the software."""
    if not isinstance(conf, dict):
        return conf
    out = {}
    for k, v in conf.items():
        if k.startswith('event_generator'):
            continue
        if k == 'sub_component_configurations' and isinstance(v, dict):
            v = {n: strip(c) for n, c in v.items()}
        if k in ('dependent_sub_components', 'mutable_sub_components'):
            v = sorted(v)
        out[k] = v
    return out


def image(c):
    return {'class': type(c).__name__, 'conf': strip(c.configuration.dict),
            'data': copy.deepcopy(c.data),
            'kids': {n: image(k) for n, k in c.sub_components.items()}}


def differs(a, b, path='root'):
    """Where two images differ, or None."""
    if a['class'] != b['class']:
        return '%s is a %s, expected %s' % (path, a['class'], b['class'])
    if a['conf'] != b['conf']:
        for k in sorted(set(a['conf']) | set(b['conf'])):
            if a['conf'].get(k) != b['conf'].get(k):
                return '%s of %s is %r, expected %r' % (
                    k, path, a['conf'].get(k), b['conf'].get(k))
    if not SM.same_data(a['data'], b['data']):
        return 'data of %s is %.80r, expected %.80r' % (
            path, a['data'], b['data'])
    if set(a['kids']) != set(b['kids']):
        return '%s has sub components %r, expected %r' % (
            path, sorted(a['kids']), sorted(b['kids']))
    for n in sorted(a['kids']):
        d = differs(a['kids'][n], b['kids'][n], path + '/' + n)
        if d:
            return d
    return None


def compatible(a, b):
    """The documented rule, on stripped configurations."""
    for k in ('class_string', 'settings', 'check_values'):
        if a[k] != b[k]:
            return False
    sa, sb = (x['sub_component_configurations'] for x in (a, b))
    if set(sa) != set(sb):
        return False
    return all(n in a['mutable_sub_components'] or compatible(sa[n], sb[n])
               for n in sa)


class Reject(Exception):
    pass


def modified(img, mods):
    """What loading an image with modified sub components should give."""
    img = copy.deepcopy(img)
    for n, m in sorted(mods.items()):
        if n not in img['kids']:
            raise Reject('unknown sub component')
        if isinstance(m, dict):
            new = modified(img['kids'][n], m)
        else:
            new = image(m)
            if n not in img['conf']['mutable_sub_components'] and (
                    new['class'] != img['kids'][n]['class'] or
                    not compatible(img['kids'][n]['conf'], new['conf'])):
                raise Reject('not compatible')
        img['kids'][n] = new
        img['conf']['sub_component_configurations'][n] = copy.deepcopy(
            new['conf'])
    return img


class Component(object):

    def __init__(self, ctx):
        self.ctx = ctx
        self.saved = {}       # directory index -> image
        self.classes = {}

    def dir(self, j):
        return self.ctx.path(self.ctx.plan['dirs'][j])

    def fresh(self, img):
        return getattr(SM, img['class'])()

    def load(self, j, img, **kw):
        c = self.fresh(img)
        c.load(self.dir(j), **kw)
        return c

    def check_load(self, j):
        img = self.saved[j]
        with D.paused():
            try:
                c = self.load(j, img)
            except Exception as e:
                fail('load', 'a saved component does not load: %s',
                     describe(e))
            if not c.is_configured:
                fail('load', 'a loaded component is not configured')
            d = differs(image(c), img)
        if d:
            fail('differs', 'after loading %s', d)

    # -- P17 ---------------------------------------------------------------
    def save(self, op):
        _, j, spec, overwrite, version = op
        if version:
            egenerator.__version__ = version
        try:
            c = build(spec)
            img = image(c)
            before = D.snapshot(self.ctx.disk.root)
            what, val = self.ctx.attempt(
                'save', lambda: c.save(self.dir(j), overwrite=overwrite))
        finally:
            egenerator.__version__ = VERSION
        d = differs(image(c), img)
        if d:
            fail('changed', 'saving has changed the component: %s', d)
        if j in self.saved and not overwrite:
            self.ctx.probe('save without overwrite refused')
            if what == 'ok':
                fail('overwrite', 'overwrite=False has saved over an '
                     'existing component')
            if D.snapshot(self.ctx.disk.root) != before:
                fail('overwrite', 'a refused save has changed files')
            self.check_load(j)
            return
        if what != 'ok':
            fail('save', 'saving fails: %s', describe(val))
        self.saved[j] = img
        self.check_load(j)

    def op_load(self, op):
        _, j, mods_spec, times, reuse = op
        if j not in self.saved:
            c = SM.TinyComponent()
            what, val = self.ctx.attempt('load', lambda: c.load(self.dir(j)))
            if what == 'ok':
                fail('load', 'loading from nowhere succeeds')
            if c.is_configured:
                fail('configured', 'configured after a failed load')
            return
        img = self.saved[j]
        mods = make_mods(mods_spec, img)
        flat = flatten(mods)
        kept = [(k, image(c)) for k, c in flat if not isinstance(c, dict)]
        try:
            want = modified(img, mods)
        except Reject as e:
            want = None
        if mods_spec:
            self.ctx.probe('load with modified sub components' if want
                           else 'incompatible modification')
        c = None
        for t in range(times):
            if c is None or not reuse or c.is_configured:
                c = self.fresh(img)
            kw = {}
            if mods_spec is not None:
                kw['modified_sub_components'] = mods
            what, val = self.ctx.attempt(
                'load', lambda: c.load(self.dir(j), **kw))
            now = flatten(mods)
            if [k for k, _ in now] != [k for k, _ in flat] or any(
                    a is not b for (_, a), (_, b) in zip(now, flat)
                    if not isinstance(a, dict)):
                fail('arguments', 'loading has changed the modified sub '
                     'components passed by the caller from %r to %r',
                     [k for k, _ in flat], [k for k, _ in now])
            for (k, old), (_, new) in zip(
                    kept, [x for x in now if not isinstance(x[1], dict)]):
                d = differs(image(new), old)
                if d:
                    fail('arguments', 'loading has changed the component '
                         '%r of the caller: %s', k, d)
            if want is None:
                if what == 'ok':
                    fail('accepted', 'loading accepts a modification that '
                         'is incompatible or unknown: %r', mods_spec)
                if c.is_configured:
                    fail('configured', 'configured after a failed load')
                continue
            if what != 'ok':
                fail('load', 'loading (attempt %d) fails: %s', t + 1,
                     describe(val))
            d = differs(image(c), want)
            if d:
                fail('differs', 'after loading (attempt %d) %s', t + 1, d)
            if not c.is_configured:
                fail('configured', 'not configured after loading')
        if want is None and reuse:
            # the same object can be used for another attempt
            what, val = self.ctx.attempt(
                'load', lambda: c.load(self.dir(j)))
            self.ctx.probe('second load after a failed one')
            if what != 'ok':
                fail('load', 'loading after a failed attempt fails: %s',
                     describe(val))
            d = differs(image(c), img)
            if d:
                fail('differs', 'loading after a failed attempt: %s', d)

    def retarget(self, op):
        """A failed load, then loading another directory."""
        _, j, k = op
        if j not in self.saved or k not in self.saved:
            return
        img = self.saved[j]
        c = self.fresh(img)
        bad = {'no such sub component': build({'config': {}})}
        what, val = self.ctx.attempt('load', lambda: c.load(
            self.dir(j), modified_sub_components=bad))
        if what == 'ok':
            fail('accepted', 'an unknown sub component was accepted')
        if c.is_configured:
            fail('configured', 'configured after a failed load')
        if self.saved[k]['class'] != img['class']:
            return
        what, val = self.ctx.attempt('load', lambda: c.load(self.dir(k)))
        if what != 'ok':
            fail('load', 'loading after a failed attempt fails: %s',
                 describe(val))
        d = differs(image(c), self.saved[k])
        if d:
            fail('differs', 'loading after a failed attempt: %s', d)

    def wrong(self, op):
        """Loading into an object of another class."""
        j = op[1]
        if j not in self.saved:
            return
        other = 'OtherComponent' if self.saved[j]['class'] == \
            'TinyComponent' else 'TinyComponent'
        c = getattr(SM, other)()
        what, val = self.ctx.attempt('load', lambda: c.load(self.dir(j)))
        if what == 'ok':
            fail('accepted', 'a %s was loaded as %s',
                 self.saved[j]['class'], other)
        if c.is_configured:
            fail('configured', 'configured after a failed load')

    # -- P18 ---------------------------------------------------------------
    def crashy(self, op):
        _, j, spec, fault = op
        c = build(spec)
        img = image(c)
        before = self.maybe.get(j)
        what, val = self.ctx.attempt(
            'save', lambda: c.save(self.dir(j), overwrite=True), fault)
        if what in ('ok', 'done-died'):
            if what == 'done-died':
                self.ctx.restart()
            self.saved[j] = img
            self.maybe[j] = [img]
            self.sure[j] = True
            self.check_load(j)
            return
        if what == 'error' and not self.ctx.disk.hit:
            fail('save', 'saving fails: %s', describe(val))
        if what == 'crash':
            self.ctx.restart()
        self.ctx.probe('interrupted save')
        cands = self.maybe.setdefault(j, [])
        same = len(cands) == 1 and not differs(img, cands[0])
        if not same:
            cands.append(img)
            self.sure[j] = False
        elif self.sure.get(j):
            self.ctx.probe('unchanged component saved again')
        with D.paused():
            got = error = None
            for cls in (SM.TinyComponent, SM.OtherComponent):
                try:
                    x = cls()
                    x.load(self.dir(j))
                    got = x
                    break
                except Exception as e:
                    if error is None or 'class' in str(error):
                        error = e
            if got is None:
                self.ctx.probe('interrupted save does not load')
                if self.sure.get(j):
                    fail('lost', 'a component that was saved again without '
                         'a change does not load: %s', describe(error))
                return
            found = image(got)
        self.ctx.probe('interrupted save loads')
        why = []
        for cand in cands:
            d = differs_conf(found, cand)
            if d is None:
                break
            why.append(d)
        else:
            fail('mixture', 'an interrupted save loads with the settings of '
                 'no save: %s', ' | '.join(why))
        check_pairs(found, cands, 'root', ())


def differs_conf(a, b, path='root'):
    a = dict(a, data=None, kids=dict(a['kids']))
    b = dict(b, data=None, kids=dict(b['kids']))
    ka, kb = a['kids'], b['kids']
    a['kids'] = b['kids'] = {}
    d = differs(a, b, path)
    if d:
        return d
    if set(ka) != set(kb):
        return 'sub components of %s: %r, %r' % (path, sorted(ka), sorted(kb))
    for n in sorted(ka):
        d = differs_conf(ka[n], kb[n], path + '/' + n)
        if d:
            return d
    return None


def node(img, path):
    for n in path:
        img = img['kids'].get(n)
        if img is None:
            return None
    return img


def check_pairs(found, cands, name, path):
    """Every configuration must come with data that was saved with it."""
    for c in cands:
        x = node(c, path)
        if x is not None and x['class'] == found['class'] and \
                x['conf'] == found['conf'] and \
                SM.same_data(x['data'], found['data']):
            break
    else:
        fail('mixture', 'an interrupted save loads %s with the settings %r '
             'and data %.60r that were never saved together', name,
             found['conf']['settings'].get('config'), found['data'])
    for n, k in sorted(found['kids'].items()):
        check_pairs(k, cands, name + '/' + n, path + (n,))


def make_mods(spec, img):
    """{name: component or nested dict} from a description."""
    out = {}
    for n, m in (spec or {}).items():
        if 'nested' in m:
            out[n] = make_mods(m['nested'], img)
        else:
            out[n] = build(m['replace'])
    return out


def flatten(mods, pre=''):
    out = []
    for n in sorted(mods):
        out.append((pre + n, mods[n]))
        if isinstance(mods[n], dict):
            out += flatten(mods[n], pre + n + '/')
    return out


# ----------------------------------------------------------- generation ----
NAMES = ['data_trafo', 'loss', 'a', 'b', 'models_0000', 'two words', 'v1.2',
         'v1.3', 'v1', u'\u00fc', '[x]', '{0}', 'A', 'x.y.z']


def gen_spec(rng, depth=2, salt=None, names=NAMES):
    conf = {'tag': rng.randrange(4), 'data': rng.choice([0, 1, 3, 60])}
    for _ in range(rng.choice([0, 1, 2])):
        conf['v%d' % rng.randrange(3)] = '@' + rng.choice(sorted(VALUES))
    spec = {'config': conf, 'salt': rng.randrange(50) if salt is None
            else salt}
    if rng.random() < .3:
        conf['check'] = rng.randrange(3)
    if rng.random() < .4:
        spec['mut'] = rng.choice([1, 2, '@list', '@dict', '@s'])
    if rng.random() < .15:
        spec['other'] = True
    if depth:
        k = rng.choice([0, 1, 1, 2, 3])
        kids = {n: gen_spec(rng, depth - 1) for n in rng.sample(names, k)}
        if kids:
            spec['children'] = kids
            if rng.random() < .4:
                spec['loose'] = rng.sample(sorted(kids), 1)
    return spec


def vary(rng, spec, depth=0):
    """A slightly different tree."""
    s = copy.deepcopy(spec)
    x = rng.random()
    kids = s.get('children', {})
    if kids and x < .45:
        n = rng.choice(sorted(kids))
        kids[n] = vary(rng, kids[n], depth + 1)
    elif x < .6:
        s['salt'] = rng.randrange(50)
    elif x < .7:
        s['config']['tag'] = rng.randrange(4)
    elif x < .78:
        s['config']['data'] = rng.choice([0, 1, 3, 60, 200])
    elif x < .85:
        s['mut'] = rng.choice([1, 2, 3, '@dict'])
    elif x < .9 and kids:
        n = rng.choice(sorted(kids))
        del kids[n]
        s['loose'] = [m for m in s.get('loose', ()) if m != n]
    elif x < .95 and depth < 2:
        s.setdefault('children', {})[rng.choice(NAMES)] = gen_spec(rng, 0)
    else:
        s['other'] = not s.get('other')
    if rng.random() < .4:
        s = vary(rng, s, depth)
    return s


def gen_mods(rng, spec, depth=0):
    kids = spec.get('children', {})
    out = {}
    for n in sorted(kids):
        x = rng.random()
        if x < .4:
            new = kids[n] if rng.random() < .2 else copy.deepcopy(kids[n])
            y = rng.random()
            if y < .45:
                new['mut'] = rng.choice([1, 2, 9, '@dict'])
            elif y < .6:
                new['salt'] = rng.randrange(50)
            else:
                new = vary(rng, new, 1)
            out[n] = {'replace': new}
        elif x < .65 and depth < 2:
            out[n] = {'nested': gen_mods(rng, kids[n], depth + 1)}
    if rng.random() < .06:
        out['unknown'] = {'replace': gen_spec(rng, 0)}
    return out


def comp_body(self, ctx):
    c = Component(ctx)
    c.maybe = {}
    c.sure = {}
    for op in ctx.plan['ops']:
        {'save': c.save, 'load': c.op_load, 'wrong': c.wrong,
         'retarget': c.retarget, 'crashy': c.crashy,
         'restart': lambda op: ctx.restart(),
         'clock': lambda op: ctx.clock.jump(op[1])}[op[0]](op)
    for j in sorted(c.saved):
        if not c.maybe:
            c.check_load(j)


class P17(StoreProp):
    id = 'P17'
    body = comp_body

    def plan(self, rng, tier):
        nd = rng.choice([1, 1, 2])
        dirs = rng.sample(['c0', 'c1', 'a b', '[1]', 'deep/er/c', u'\u00fc'],
                          nd)
        specs = {}
        ops = []
        for _ in range(rng.choice([3, 5, 8])):
            j = rng.randrange(nd)
            x = rng.random()
            if j not in specs or x < .3:
                s = gen_spec(rng, rng.choice([0, 1, 2, 3])) \
                    if j not in specs or rng.random() < .3 else \
                    vary(rng, specs[j])
                over = rng.random() < .7
                if j not in specs and rng.random() < .05:
                    ops.append(['load', j, None, 1, False])
                ops.append(['save', j, s, over, rng.choice(
                    [None, None, None, None, '0.9.9', '99.0'])])
                if j not in specs or over:
                    specs[j] = s
            elif x < .8:
                mods = gen_mods(rng, specs[j]) if rng.random() < .75 else None
                ops.append(['load', j, mods, rng.choice([1, 2, 2]),
                            rng.random() < .5])
            elif x < .88:
                ops.append(['wrong', j])
            elif x < .95:
                ops.append(['retarget', j, rng.randrange(nd)])
            else:
                ops.append(['restart'])
        return base(rng, ops, dirs)


class P18(StoreProp):
    id = 'P18'
    body = comp_body

    def plan(self, rng, tier):
        ops = []
        names = [n for n in NAMES]
        s = gen_spec(rng, rng.choice([0, 1, 2]), names=names)
        p = rng.choice([.3, .6, .8])
        for k in range(rng.choice([2, 3, 4, 6])):
            f = gen_fault(rng, [4, 10, 25, 60, 120]) \
                if rng.random() < p else None
            ops.append(['crashy', 0, s, f])
            if rng.random() < .75:
                s = vary(rng, s)
        if ops[-1][3] is not None:
            ops.append(['crashy', 0, vary(rng, s), None])
        return base(rng, ops, ['c0'])

    def nontrivial(self, plan, res):
        return any(k != 'crash after return' for k in res.fired)


PROPS = [P17(), P18()]
