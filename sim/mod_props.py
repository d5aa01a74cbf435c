"""P11: reading files and frames with the modules of the data handler."""
from . import env
env.setup()

import copy
import zlib

import numpy as np

from . import modsim as M
from . import storage as S
from .pipeline import Result, Violation, fail
from .storage import describe


class Run(object):

    def __init__(self, plan):
        self.plan = plan
        self.cfg = plan['cfg']
        self.hash = 0
        self.steps = 0
        self.log = []
        self.probes = {}
        self.calls = 0
        self.frames = {}

    def probe(self, name):
        self.probes[name] = self.probes.get(name, 0) + 1

    def note(self, *x):
        text = repr(x)
        self.hash = zlib.crc32(text.encode(), self.hash)
        self.log.append(text)

    def required(self):
        c = self.cfg
        need = {'pulses', 'labels'} | set(c['seeds'])
        if c['label'] != 'dummy':
            need.add('label')
            if c['label'].startswith('snow') and c['n_snow'] and \
                    c['snow_key']:
                need.add('snow')
        for con in c.get('constraints') or ():
            need.add({'Quality': 'quality', 'Vector': 'vector',
                      M.LABELS: 'labels'}[con[0]])
        return {M.table_of(x, c) for x in need}

    def complete(self, f):
        bad = set(f.get('missing', ())) | set(f.get('truncated', ()))
        return not (self.required() & {M.table_of(x, self.cfg) for x in bad})

    def uids(self, f):
        return list(range(f['base'], f['base'] + f['n']))

    def body(self, disk):
        h = M.make_handler(self.cfg)
        for i, f in enumerate(self.plan['files']):
            disk.files['f%d.hdf' % i] = M.tables(self.uids(f), self.cfg, f)
        for op in self.plan['ops']:
            f = self.plan['files'][op[1]]
            o = op[2]
            disk.n = 0
            disk.fault = dict(o['fault']) if o.get('fault') else None
            del disk.trace[:]
            if op[0] == 'load':
                uids = self.uids(f)
                args = (self.path(op[1]),)
                method = h.get_data_from_hdf
            else:
                uids = [f['base'] + o['event'] % f['n']]
                key = (op[1], uids[0])
                if key not in self.frames:
                    self.frames[key] = M.SimFrame(
                        M.frame_of(uids[0], self.cfg, f))
                args = (self.frames[key],)
                method = {'get': h.get_data_from_frame,
                          'tensor': h.get_tensor_from_frame,
                          'create': h.create_data_from_frame}[o['how']]
            args += tuple(o.get('args', ()))
            self.calls += 1
            error = None
            try:
                n = 1
                out = method(*args, **o.get('kwargs', {}))
                if o.get('how') == 'tensor':
                    data = out
                else:
                    n, data = out
            except M.Interrupted as e:
                error = e
            except Exception as e:
                if not S.in_repo(e):
                    raise
                error = e
            fired = disk.fault is not None and disk.fault.get('done')
            self.steps += disk.n
            self.note(op[0], op[1], list(disk.trace), bool(fired),
                      type(error).__name__)
            if disk.open:
                fail('handle', '%d open files after %s', len(disk.open),
                     describe(error) if error is not None else 'the call')
            ok = self.complete(f) and not f.get('bad_mask')
            if fired and disk.fault['type'] == 'interrupt' and error is None:
                fail('interrupt', 'an interrupt of the user was ignored')
            if error is not None:
                if not fired and not ok:
                    self.probe('incomplete input: error')
                elif fired:
                    self.probe('fault: error')
                elif o.get('how') == 'tensor' and not M.passes(
                        uids[0], self.cfg):
                    self.probe('no events')
                else:
                    fail('error', '%s', describe(error))
                continue
            if n is None and data is None:
                keep = [u for u in uids if M.passes(u, self.cfg)]
                if fired or not ok:
                    self.probe('skipped')
                elif keep:
                    fail('skipped', '%d complete events were not loaded',
                         len(keep))
                else:
                    self.probe('no events')
                continue
            self.probe('fault: content' if fired else 'content')
            self.content(op, f, h, n, data, uids)
            for x in data:        # it belongs to the caller
                if isinstance(x, np.ndarray) and x.flags.writeable:
                    x[...] = 1

    def path(self, i):
        return 'f%d.hdf' % i

    def content(self, op, f, h, n, data, uids):
        keep = [u for u in uids if M.passes(u, self.cfg)]
        if not keep:
            fail('filter', '%r events delivered, none passes the filter', n)
        missing = tuple(f.get('missing', ()))
        kw = dict(scalars=op[0] == 'frame', dtype=True)
        alt = [missing]
        if 'dom' in missing and self.cfg['discard']:
            alt.append(missing + ('discard',))
        for k, m in enumerate(alt):
            try:
                M.check_events(data, n, h.tensors, keep, self.cfg, fail, m,
                               **kw)
                break
            except Violation:
                if k == len(alt) - 1:
                    raise
        if len(keep) < len(uids):
            self.probe('filtered')
        self.note(n, keep)


class P11(object):
    id = 'P11'
    runs = {'quick': 4000, 'thorough': 100000}
    floor = 200

    def known(self, plan, violation):
        from . import findings
        return findings.match(self.id, plan, violation) is not None

    def plan(self, rng, tier):
        cfg = M.gen_config(rng, label=rng.random() < .85)
        files = []
        faulty = rng.choice([0., 0., .3, .7])
        for i in range(rng.choice([1, 1, 2, 3])):
            f = {'base': 60 * i + rng.randrange(40), 'n': rng.randint(1, 9)}
            if rng.random() < .04:
                f['n'] = 0
            if rng.random() < .5:
                f['riffle'] = True
            for key, p in (('mask', .3), ('particles', .3)):
                if rng.random() < p:
                    f[key] = rng.choice([1, 2])
            tabs = ['pulses', 'labels', 'label', 'snow', 'quality', 'vector',
                    'dom', 'tw', 'dom', 'tw'] + cfg['seeds']
            if rng.random() < faulty * .6:
                f['missing'] = sorted({rng.choice(tabs) for _ in
                                       range(rng.choice([1, 1, 2]))})
            if rng.random() < faulty * .5 and f['n'] > 1:
                t = rng.choice(['snow', 'quality', 'vector'] + cfg['seeds'])
                used = [c[0] for c in cfg.get('constraints') or ()
                        if c[0] in ('Quality', 'Vector')]
                if used and rng.random() < .5:
                    t = rng.choice(used).lower()
                elif cfg['seeds'] and rng.random() < .5:
                    t = rng.choice(cfg['seeds'])
                rows = f['n'] * {'snow': max(1, cfg['n_snow']),
                                 'vector': 2}.get(t, 1)
                f['truncated'] = {t: rng.choice(
                    [1, 1, 2, rows - 1, rows // 2])}
            if rng.random() < faulty * .2 and f.get('mask'):
                f['bad_mask'] = True
            files.append(f)
        ops = []
        for _ in range(rng.choice([2, 4, 6, 9])):
            fi = rng.randrange(len(files))
            o = {}
            if rng.random() < faulty:
                o['fault'] = {'at': rng.choice([1, 2, 3, 4, 5, 6, 8, 10, 12]),
                              'type': rng.choice(sorted(M.ERRORS))}
            if rng.random() < .1:
                o['kwargs'] = {'extra': 3}
            if rng.random() < .1:
                o['args'] = ['more']
            kind = 'load'
            if rng.random() < .4 and files[fi]['n']:
                kind = 'frame'
                o['event'] = rng.randrange(9)
                o['how'] = rng.choice(['get', 'get', 'tensor', 'create'])
            ops.append([kind, fi, o])
            if o.get('fault') and rng.random() < .6:
                o = {k: v for k, v in o.items() if k != 'fault'}
                ops.append([kind, fi, o])
        return {'cfg': cfg, 'files': files, 'ops': ops}

    def run(self, plan, keep_log=False):
        res = Result()
        res.violation = None
        r = Run(plan)
        with M.access() as disk:
            try:
                r.body(disk)
            except Violation as e:
                res.violation = (e.kind, e.info)
            except Exception as e:
                if not S.in_repo(e):
                    raise
                res.violation = ('error', describe(e))
            res.fired = dict(disk.fired)
        for f in plan['files']:
            for what in f.get('missing', ()):
                res.fired['missing table'] = \
                    res.fired.get('missing table', 0) + 1
            for what in f.get('truncated', ()):
                res.fired['truncated table'] = \
                    res.fired.get('truncated table', 0) + 1
        res.hash = r.hash
        res.steps = r.steps
        res.sim_s = 0.
        res.deviations = []
        res.probes = r.probes
        res.switches = r.calls
        res.log = r.log
        res.worker_errors = []
        res.api_calls = r.calls
        return res

    def nontrivial(self, plan, res):
        return 'content' in res.probes or 'fault: content' in res.probes

    def sample(self, plan, res):
        return {'plan': {k: v for k, v in plan.items()
                         if k not in ('seed', 'property')},
                'file_operations': res.steps, 'fired': res.fired,
                'probes': res.probes, 'trace_hash': '%08x' % res.hash}

    def shrink(self, plan):
        def new():
            return copy.deepcopy(plan)
        for i in range(len(plan['ops'])):
            p = new()
            del p['ops'][i]
            yield p
        for i, op in enumerate(plan['ops']):
            for key in ('fault', 'args', 'kwargs'):
                if op[2].get(key):
                    p = new()
                    del p['ops'][i][2][key]
                    yield p
        for i, f in enumerate(plan['files']):
            for key in ('riffle', 'mask', 'particles', 'missing',
                        'truncated', 'bad_mask'):
                if f.get(key):
                    p = new()
                    del p['files'][i][key]
                    yield p
            for n in sorted({1, f['n'] // 2, f['n'] - 1}):
                if 0 < n < f['n']:
                    p = new()
                    p['files'][i]['n'] = n
                    yield p
        c = plan['cfg']
        for key, simple in (('constraints', None), ('seeds', []),
                            ('dom_key', None), ('tw_key', None),
                            ('quant', False), ('discard', False),
                            ('shift', False), ('icetop', False),
                            ('extra', []), ('label', 'cascades'),
                            ('sparse', False), ('float', 'float32')):
            if c.get(key) and c[key] != simple:
                p = new()
                p['cfg'][key] = simple
                yield p
        if c.get('constraints') and len(c['constraints']) > 1:
            for i in range(len(c['constraints'])):
                p = new()
                del p['cfg']['constraints'][i]
                yield p


PROPS = [P11()]
