"""P22: from the tables of the files to the batches, with the real modules."""
from . import env
env.setup()

import contextlib
import copy
import os

import numpy as np

from . import modsim as M
from . import tfdata
from .mod_props import Run
from .pipe_props import Prop, base_plan, reps
from .pipeline import (Check, Violation, check_multiset, fail, file_uids, gen_files,
                       inputs_of)


class EndToEnd(Check):

    @contextlib.contextmanager
    def surroundings(self, kern, plan, scratch):
        cfg = plan['handlers'][0]['modules']
        files, ops = {}, {}
        with M.access() as disk:
            for f in plan['files']:
                p = os.path.join(scratch, f['name'])
                disk.files[p] = M.tables(file_uids(f), cfg, f)
                files[p] = f

            def hook(what, path):
                kern.point('%s %s' % (what, os.path.basename(path)))
                f = files[path]
                task = (kern.this_task().name, path)
                ops[task] = ops.get(task, 0) + 1
                kern.progress()
                if what == 'open' and f.get('vanish_at') == 'open' and \
                        os.path.exists(path):
                    kern.count(kern.fired, 'vanished')
                    os.remove(path)
                if f.get('slow') and ops[task] == 1:
                    kern.count(kern.fired, 'slow read')
                    kern.sleep(f['slow'])
                fault = f.get('fault')
                if fault and ops[task] == fault['at']:
                    kern.count(kern.fired, '%s at %s' % (
                        fault['type'], what.split()[0]))
                    raise M.ERRORS[fault['type']]()
            disk.hook = hook
            disk.exists = os.path.exists
            self.disk = disk
            yield

    def make_handler(self, spec):
        return M.make_handler(spec['modules'])

    def on_batch(self, ctx, st, batch):
        h = ctx.handlers[st.spec['handler']]
        cfg = ctx.plan['handlers'][0]['modules']
        if len(batch) != h.tensors.len:
            fail('malformed', '%d entries for %d tensors', len(batch),
                 h.tensors.len)
        x = np.asarray(batch[h.tensors.get_index('x_parameters')])
        col = 1 if cfg['label'] == 'snow_tracks' else 4
        if x.ndim != 2 or x.shape[1] <= col:
            fail('malformed', 'x_parameters has shape %r', x.shape)
        uids = [int(u) for u in x[:, col]]
        if not 0 < len(uids) <= st.set['batch_size']:
            fail('size', '%d events in a batch of up to %d', len(uids),
                 st.set['batch_size'])
        missing = {}
        for u in uids:
            f = self.file_of(ctx, u)
            if f is None:
                fail('invented', 'event %d is in no file', u)
            missing[u] = tuple(f.get('missing', ()))
        # with an absent exclusion table either reading of "discard" is fine
        alt = [missing]
        if cfg['discard'] and any('dom' in m for m in missing.values()):
            alt.append({u: m + ('discard',) if 'dom' in m else m
                        for u, m in missing.items()})
        for k, m in enumerate(alt):
            try:
                M.check_events(batch, len(uids), h.tensors, uids, cfg, fail,
                               m, dtype=True, placeholders=True)
                break
            except Violation:
                if k == len(alt) - 1:
                    raise
        return uids

    @staticmethod
    def file_of(ctx, u):
        for f in ctx.plan['files']:
            if f['base'] <= u < f['base'] + f['n']:
                return f

    def final(self, ctx):
        cfg = ctx.plan['handlers'][0]['modules']
        run = Run({'cfg': cfg})
        for st in ctx.streams.values():
            sure, maybe = set(), set()
            for i in st.files():
                f = ctx.plan['files'][i]
                us = set(u for u in file_uids(f) if M.passes(u, cfg))
                if f.get('vanish'):
                    maybe |= us
                elif f.get('fault'):
                    # struck, or planned for an operation never reached
                    (maybe if f['fault'].get('maybe') else sure).update(us)
                elif run.complete(f):
                    sure |= us
            got = set(st.uids)
            if st.set['pick_random_files_forever']:
                bad = got - sure - maybe
                if bad:
                    fail('invented', 'events %r', sorted(bad)[:8])
                continue
            if not st.ended:
                fail('no-end', 'the generator did not end')
            for i in st.files():
                us = set(file_uids(ctx.plan['files'][i])) & maybe
                if us & got:
                    sure |= us
            check_multiset(st.uids, sure, reps(st))
        if not any(not st.ended for st in ctx.streams.values()):
            ctx.kern.settle(120.)
            if self.disk.open:
                fail('handle', '%d files are still open', len(self.disk.open))


class P22(Prop):
    id = 'P22'
    check = EndToEnd

    def plan(self, rng, tier):
        finite = rng.random() < .85
        p = base_plan(rng, nmax=rng.choice([2, 3, 5]), emax=6, finite=finite)
        g = p['gens'][0]
        cfg = M.gen_config(rng)
        p['handlers'] = [{'modules': cfg}]
        for key in ('sel', 'args', 'kwargs'):
            g.pop(key, None)
        if not p['files']:
            p['files'] = gen_files(rng, 2, emax=6)
            inputs_of(rng, g, p['files'], [0, 1])
        run = Run({'cfg': cfg})
        faulty = rng.choice([0., .3, .6])
        tabs = ['pulses', 'labels', 'label', 'snow', 'quality', 'vector',
                'dom', 'tw', 'dom', 'tw'] + cfg['seeds']
        for i, f in enumerate(p['files']):
            f.pop('expect_args', None)
            if rng.random() < .5:
                f['riffle'] = True
            x = rng.random()
            if x < .2 * faulty:
                f['vanish'] = True
                if rng.random() < .5:
                    f['vanish_at'] = 'open'
                else:
                    p['faults'].append({
                        'type': 'vanish', 'file': i,
                        'step': rng.choice([1, rng.randrange(1, 200)])})
            elif x < .5 * faulty:
                f['fault'] = {'at': rng.choice([1, 2, 3, 4, 5, 6, 8, 10]),
                              'type': rng.choice(['io', 'blosc', 'memory',
                                                  'corrupt']),
                              'maybe': True}
            elif x < .8 * faulty:
                f['missing'] = sorted({rng.choice(tabs) for _ in
                                       range(rng.choice([1, 1, 2]))})
            elif x < .9 * faulty and f['n'] > 1:
                used = [c[0].lower() for c in cfg.get('constraints') or ()
                        if c[0] in ('Quality', 'Vector')]
                t = rng.choice(cfg['seeds'] + used + ['snow'])
                f['truncated'] = {t: 1}
            elif x < faulty and rng.random() < .5:
                f['n'] = 0
        if not finite:
            p['ops'][-1] = ['next', 0, rng.randint(1, 12)]
            f = p['files'][0]
            for key in ('vanish', 'vanish_at', 'fault', 'missing',
                        'truncated'):
                f.pop(key, None)
            p['faults'] = [x for x in p['faults'] if x['type'] != 'vanish' or
                           x['file']]
            f['n'] = max(f['n'], 1)
            if not any(M.passes(u, cfg) for u in file_uids(f)):
                cfg['constraints'] = None
        if rng.random() < .1:
            g['tf'] = True
        return p

    def run(self, plan, keep_log=False):
        if plan['gens'][0].get('tf'):
            with tfdata.simulated():
                return Prop.run(self, plan, keep_log)
        return Prop.run(self, plan, keep_log)

    def shrink(self, plan):
        for p in Prop.shrink(self, plan):
            yield p
        c = plan['handlers'][0]['modules']
        for key, simple in (('constraints', None), ('seeds', []),
                            ('dom_key', None), ('tw_key', None),
                            ('quant', False), ('discard', False),
                            ('shift', False), ('icetop', False),
                            ('extra', []), ('label', 'cascades'),
                            ('sparse', False), ('float', 'float32')):
            if c.get(key) and c[key] != simple:
                p = copy.deepcopy(plan)
                p['handlers'][0]['modules'][key] = simple
                yield p


PROPS = [P22()]
