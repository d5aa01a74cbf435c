"""The pipeline properties P01-P10: workload generators and oracles."""
import copy
import glob
import inspect
import random

import numpy as np

from . import kernel as K
from . import tfdata
from .pipeline import (CALLS, TAP, Check, EVENTS, check_multiset, fail, file_uids,
                       gen_consume, gen_files, gen_layout, gen_sched,
                       gen_settings, gen_stalls, inputs_of, run)

from egenerator.data.handler.base import BaseDataHandler
from egenerator.data.trafo import DataTransformer
import egenerator.data.trafo as trafo_module

trafo_module.tqdm = lambda x: x


def base_plan(rng, finite=True, rich=False, nmax=6, emax=9, empty=0.):
    s = gen_settings(rng, finite)
    files = gen_files(rng, rng.randint(0 if rng.random() < .1 else 1, nmax),
                      emax, empty=empty)
    spec = inputs_of(rng, {'handler': 0, 'set': s}, files,
                     list(range(len(files))))
    if rng.random() < .25:
        spec['sel'] = [rng.choice([2, 3, 5]), rng.randrange(2)]
    if rng.random() < .1:
        spec['args'] = ['a', 1]
        spec['kwargs'] = {'key': 'v'}
        for f in files:
            f['expect_args'] = [['a', 1], {'key': 'v'}]
    return {
        'handlers': [{'layout': gen_layout(rng, rich)}],
        'files': files, 'gens': [spec],
        'ops': gen_consume(rng),
        'order': rng.randrange(1000), 'np_seed': rng.randrange(2 ** 31),
        'sched': gen_sched(rng, s['num_jobs'] + 2),
        'faults': gen_stalls(rng),
    }


class Prop(object):
    check = Check
    stub = ['input files (simulated records behind get_data_from_hdf)']
    real = ['egenerator.data.handler.base (unmodified)',
            'egenerator.manager.component', 'egenerator.data.tensor',
            'pickle transport of every queue item', 'glob', 'numpy']
    runs = {'quick': 2400, 'thorough': 60000}
    floor = 200

    def run(self, plan, keep_log=False):
        return run(plan, self.check(), keep_log)

    def known(self, plan, violation):
        from . import findings
        return findings.match(self.id, plan, violation) is not None

    def nontrivial(self, plan, res):
        return res.batches > 0 and res.switches > 3

    def sample(self, plan, res):
        return {'settings': [g['set'] for g in plan['gens']],
                'files': [[f['name'], f['n'], f.get('fault', '')]
                          for f in plan['files']],
                'ops': plan['ops'], 'sched': {
                    k: v for k, v in plan['sched'].items()
                    if k != 'deviations'},
                'faults': plan['faults'], 'steps': res.steps,
                'simulated_s': round(res.sim_s, 3),
                'batches': res.batches, 'trace_hash': '%08x' % res.hash}

    # -- smaller plans ----------------------------------------------------
    def shrink(self, plan):
        def new():
            return copy.deepcopy(plan)
        for i in range(len(plan['faults'])):
            p = new()
            del p['faults'][i]
            yield p
        for i in range(len(plan['files'])):
            p = new()
            del p['files'][i]
            name = plan['files'][i]['name']
            for g in p['gens']:
                g['files'] = [j - (j > i) for j in g['files'] if j != i]
                g['input'] = [x for x in g['input'] if x != name]
                if not g['input']:
                    g.pop('as_str', None)
            p['faults'] = [f for f in p['faults'] if f.get('file') != i]
            for f in p['faults']:
                if f.get('file') is not None and f['file'] > i:
                    f['file'] -= 1
            yield p
        for i, f in enumerate(plan['files']):
            for key in ('slow', 'fault', 'bad'):
                if f.get(key) and key == 'slow':
                    p = new()
                    del p['files'][i][key]
                    yield p
            for n in sorted({1, f['n'] // 2, f['n'] - 1}):
                if 0 < n < f['n']:
                    p = new()
                    p['files'][i]['n'] = n
                    yield p
        simple = {'batch_size': [1, 2, 3], 'file_capacity': [1],
                  'batch_capacity': [1, 5], 'num_jobs': [1, 2],
                  'num_add_files': [0, 1], 'num_repetitions': [1, 2],
                  'sample_randomly': [False], 'verbose': [False]}
        for gi, g in enumerate(plan['gens']):
            for key, vals in simple.items():
                cur = g['set'].get(key)
                for v in vals:
                    if cur is not None and cur is not False and v < cur:
                        p = new()
                        p['gens'][gi]['set'][key] = v
                        yield p
            for key in ('sel', 'args', 'kwargs'):
                if g.get(key):
                    p = new()
                    del p['gens'][gi][key]
                    if key != 'sel':
                        p['gens'][gi].pop('args', None)
                        p['gens'][gi].pop('kwargs', None)
                        for f in p['files']:
                            f.pop('expect_args', None)
                    yield p
        for i in range(len(plan['ops'])):
            if plan['ops'][i][0] in ('next', 'pause', 'start'):
                p = new()
                del p['ops'][i]
                yield p
                if plan['ops'][i][0] == 'next' and plan['ops'][i][2] > 1:
                    p = new()
                    p['ops'][i][2] -= 1
                    yield p
        for hi, h in enumerate(plan['handlers']):
            for key in list(h.get('layout', ())):
                if key != 'salt':
                    p = new()
                    del p['handlers'][hi]['layout'][key]
                    yield p


def reps(st):
    return st.set['num_repetitions']


# ----------------------------------------------------------------- P01 -----
class ExactlyOnce(Check):

    def final(self, ctx):
        for st in ctx.streams.values():
            if not st.ended:
                fail('no-end', 'the generator did not end')
            check_multiset(st.uids, set(st.expected()), reps(st))


class P01(Prop):
    id = 'P01'
    check = ExactlyOnce

    def plan(self, rng, tier):
        return base_plan(rng, rich=rng.random() < .2,
                         nmax=rng.choice([3, 6, 10]))


# ----------------------------------------------------------------- P02 -----
class Ends(Check):

    def on_end(self, ctx, st):
        # a second look at the end, and nobody is left behind
        try:
            next(st.it)
        except StopIteration:
            pass
        else:
            fail('no-end', 'a batch after the end')
        ctx.kern.settle(120.)
        left = ctx.alive(st.first_proc)
        if left:
            fail('left-behind', 'alive after the end: %r', [
                (p._task.name, p._task.where) for p in left])

    def final(self, ctx):
        for st in ctx.streams.values():
            if not st.ended:
                fail('no-end', 'the generator did not end')


FAULTS = ['open-error', 'read-error', 'key-error', 'value-error',
          'memory-error', 'skip']


def add_file_faults(rng, plan, p=.35, vanish=True):
    """Faulty files; marks them as bad."""
    for i, f in enumerate(plan['files']):
        if rng.random() > p:
            continue
        x = rng.random()
        if x < .25 and vanish:
            f['bad'] = True
            f['vanish'] = True
            if rng.random() < .5:
                f['vanish_at'] = 'open'
            else:
                plan['faults'].append({
                    'type': 'vanish', 'file': i,
                    'step': rng.choice([1, 1, 1, rng.randrange(1, 200)])})
        elif x < .35:
            f['n'] = 0
        elif x < .45:
            f['n'] = 0
            f['empty_ok'] = True
        else:
            f['bad'] = True
            f['fault'] = rng.choice(FAULTS)
            if plan['gens'][0]['set']['pick_random_files_forever'] and \
                    rng.random() < .3:
                f['once'] = True


class P02(Prop):
    id = 'P02'
    check = Ends

    def plan(self, rng, tier):
        p = base_plan(rng, nmax=rng.choice([2, 4, 7]),
                      rich=rng.random() < .2)
        if rng.random() < .75:
            add_file_faults(rng, p, rng.choice([.2, .5, 1.]))
        if rng.random() < .15:
            p['gens'][0]['sel'] = [1, 0]      # selects nothing at all
        return p

    def nontrivial(self, plan, res):
        return res.switches > 3


# ----------------------------------------------------------------- P03 -----
class WellFormed(Check):
    strict = True

    def final(self, ctx):
        for st in ctx.streams.values():
            bs = st.set['batch_size']
            short = [i for i, n in enumerate(st.sizes) if n != bs]
            if short and (st.set['pick_random_files_forever'] or
                          short != [len(st.sizes) - 1] or not st.ended):
                fail('size', 'batch sizes %r for batch_size %d',
                     st.sizes[:40], bs)


class P03(Prop):
    id = 'P03'
    check = WellFormed

    def plan(self, rng, tier):
        finite = rng.random() < .75
        p = base_plan(rng, rich=True, nmax=4, finite=finite)
        if not finite:
            if not p['files']:
                p['files'] = gen_files(rng, 1)
                inputs_of(rng, p['gens'][0], p['files'], [0])
            p['gens'][0].pop('sel', None)
            p['ops'][-1] = ['next', 0, rng.randint(1, 20)]
        return p


# ----------------------------------------------------------------- P04 -----
class Isolated(Check):
    strict = True

    def final(self, ctx):
        for st in ctx.streams.values():
            sure = set(st.expected())
            maybe = set()
            for i in st.files():
                f = ctx.plan['files'][i]
                if f.get('vanish') or (f.get('once') and f.get('bad')):
                    maybe |= set(file_uids(f))
            if st.sel is not None:
                maybe = set(u for u in maybe if st.sel.keeps(u))
            if st.set['pick_random_files_forever']:
                for u in st.uids:
                    if u not in sure and u not in maybe:
                        fail('invented', 'event %d was delivered', u)
                continue
            if not st.ended:
                fail('no-end', 'the generator did not end')
            # a file that vanished late may have been read completely or not
            got = {}
            for u in st.uids:
                got[u] = got.get(u, 0) + 1
            for i in st.files():
                f = ctx.plan['files'][i]
                if f.get('vanish'):
                    us = [u for u in file_uids(f) if u in maybe]
                    if any(u in got for u in us):
                        sure |= set(us)
            check_multiset(st.uids, sure, reps(st))


class P04(Prop):
    id = 'P04'
    check = Isolated

    def plan(self, rng, tier):
        finite = rng.random() < .8
        p = base_plan(rng, nmax=rng.choice([3, 5, 8]), finite=finite,
                      rich=rng.random() < .3)
        if not finite:
            p['files'] = gen_files(rng, rng.randint(2, 5))
            p['gens'][0].pop('args', None)
            p['gens'][0].pop('kwargs', None)
            p['gens'][0].pop('sel', None)
            inputs_of(rng, p['gens'][0], p['files'],
                      list(range(len(p['files']))))
            p['ops'][-1] = ['next', 0, rng.randint(1, 25)]
        add_file_faults(rng, p, rng.choice([.2, .5, .8]))
        if not finite:
            k = rng.randrange(len(p['files']))
            p['files'][k] = gen_files(rng, 1, base=5000)[0]
            p['files'][k]['name'] = 'f%02d.hdf' % k
            # names must stay unique after the shuffle
            for i, f in enumerate(p['files']):
                f['name'] = 'f%02d.hdf' % i
            inputs_of(rng, p['gens'][0], p['files'],
                      list(range(len(p['files']))))
            p['faults'] = [f for f in p['faults'] if f.get('file') != k]
        return p

    def nontrivial(self, plan, res):
        return res.switches > 3 and any(
            f.get('bad') or f['n'] == 0 for f in plan['files'])


# ----------------------------------------------------------------- P05 -----
class Bounded(Check):

    def op(self, ctx, op):
        if op[0] != 'check':
            return Check.op(self, ctx, op)
        st = ctx.streams[0]
        s = st.set
        ctx.kern.sleep(op[1])
        opened = sum(1 for e in EVENTS if e[0] == 'open')
        e_file = ctx.plan['files'][0]['n']
        r = reps(st)
        group = max(1 + s['num_add_files'], int(np.ceil(
            np.sqrt(max(0, r - 1)) * s['batch_size'] / e_file)))
        ahead = (st.batches + s['batch_capacity'] + 1) * s['batch_size']
        taken = (ahead // (group * e_file * r) + 1) * group
        bound = taken + s['file_capacity'] + s['num_jobs']
        if opened > bound:
            fail('unbounded', '%d files opened, at most %d expected after '
                 '%d batches were taken', opened, bound, st.batches)
        ctx.kern.sleep(60.)
        again = sum(1 for e in EVENTS if e[0] == 'open')
        if again != opened and not any(
                f['type'] == 'stall' for f in ctx.plan['faults']):
            fail('unbounded', 'files are opened while the consumer waits')
        waiting = 0
        if len(EVENTS) < 2 * len(ctx.plan['files']):
            ctx.kern.probe('look-ahead stopped by a bound')

    def final(self, ctx):
        for st in ctx.streams.values():
            if not st.ended and not st.set['pick_random_files_forever']:
                fail('no-end', 'the generator did not end')
            if st.ended:
                check_multiset(st.uids, set(st.expected()), reps(st))


class P05(Prop):
    id = 'P05'
    check = Bounded

    def plan(self, rng, tier):
        finite = rng.random() < .7
        p = base_plan(rng, nmax=4, finite=finite)
        s = p['gens'][0]['set']
        s['batch_capacity'] = rng.choice([1, 2, 3, 5])
        s['num_jobs'] = rng.choice([1, 2, 3])
        s['num_add_files'] = rng.choice([0, 0, 1, 2])
        e = rng.randint(2, 9)
        g = p['gens'][0]
        for key in ('sel', 'args', 'kwargs'):
            g.pop(key, None)
        n = rng.choice([12, 25, 40])
        p['files'] = [{'name': 'f%02d.hdf' % i, 'base': 20 * i, 'n': e}
                      for i in range(n)]
        inputs_of(rng, g, p['files'], list(range(n)))
        ops = [['start', 0]]
        for _ in range(rng.randint(1, 3)):
            ops.append(['check', rng.choice([30., 60., 100.])])
            ops.append(['next', 0, rng.randint(1, 3)])
        ops.append(['drain', 0] if finite else ['check', 60.])
        p['ops'] = ops
        return p

    def nontrivial(self, plan, res):
        return res.probes.get('look-ahead stopped by a bound', 0) > 0


# ----------------------------------------------------------------- P06 -----
class Ordered(Check):

    def final(self, ctx):
        for st in ctx.streams.values():
            if not st.ended:
                fail('no-end', 'the generator did not end')
            owner = {}
            content = {}
            for i in st.files():
                us = [u for u in file_uids(ctx.plan['files'][i])
                      if st.sel is None or st.sel.keeps(u)]
                content[i] = us
                for u in us:
                    owner[u] = i
            # split into runs of files
            seq = []
            pos = 0
            while pos < len(st.uids):
                u = st.uids[pos]
                if u not in owner:
                    fail('invented', 'event %d', u)
                us = content[owner[u]]
                if st.uids[pos:pos + len(us)] != us:
                    fail('order', 'at position %d: %r, file %s holds %r',
                         pos, st.uids[pos:pos + len(us)],
                         ctx.plan['files'][owner[u]]['name'], us)
                seq.append(owner[u])
                pos += len(us)
            listed = [i for i in st.files() if content[i]]
            first = []
            for i in seq:
                if i not in first:
                    first.append(i)
            if st.set['num_jobs'] == 1 and first != listed:
                fail('order', 'files delivered in order %r, listed %r',
                     first, listed)
            # each group is repeated as a whole in the same order
            r = reps(st)
            pos = 0
            while pos < len(seq):
                g = 1
                while pos + g < len(seq) and seq[pos + g] != seq[pos]:
                    g += 1
                if r == 1:
                    g = 1
                block = seq[pos:pos + g]
                if seq[pos:pos + g * r] != block * r:
                    fail('order', 'repetitions not in the same order: %r',
                         seq[pos:pos + g * r])
                pos += g * r
            check_multiset(st.uids, set(st.expected()), r)


class P06(Prop):
    id = 'P06'
    check = Ordered

    def plan(self, rng, tier):
        p = base_plan(rng, nmax=rng.choice([3, 6, 10]),
                      rich=rng.random() < .2)
        g = p['gens'][0]
        g['set']['sample_randomly'] = False
        if rng.random() < .6:
            g['set']['num_jobs'] = 1
        g['input'] = [glob.escape(f['name']) for f in p['files']]
        g.pop('as_str', None)
        return p


# ----------------------------------------------------------------- P07 -----
class Killed(Check):
    """kill() and dying workers."""

    def on_create_error(self, ctx, st, exc):
        if not isinstance(exc, BlockingIOError):
            Check.on_create_error(self, ctx, st, exc)
        ctx.kern.probe('creation failed')
        ctx.killed.add(st.spec['handler'])

    def on_error(self, ctx, st, exc):
        # an error is fine if something died or was killed
        if st.spec['handler'] in ctx.killed or ctx.kern.fired.get('kill'):
            ctx.kern.probe('generator raised %s' % type(exc).__name__)
            return
        Check.on_error(self, ctx, st, exc)

    def on_end(self, ctx, st):
        if st.spec['handler'] in ctx.killed or ctx.kern.fired.get('kill'):
            ctx.kern.probe('generator ended after a kill')
        else:
            check_multiset(st.uids, set(st.expected()), reps(st))

    def op(self, ctx, op):
        if op[0] == 'fresh':
            # generators created after kill() deliver everything
            ctx.kern.faults = []
            ctx.killed.discard(ctx.plan['gens'][op[1]]['handler'])
            ctx.kern.fired_before = dict(ctx.kern.fired)
            saved = ctx.kern.fired.pop('kill', 0)
            st = ctx.stream(op[1])
            while st.next():
                pass
            if saved:
                ctx.kern.fired['kill'] = saved
            if not st.ended:
                fail('no-restart', 'generator after kill() did not end: %r',
                     st.error)
            check_multiset(st.uids, set(st.expected()), reps(st))
        elif op[0] == 'gone':
            alive = [p for p in ctx.alive()]
            if alive:
                fail('left-behind', 'alive after kill(): %r', [
                    (p._task.name, p._task.where) for p in alive])
        else:
            Check.op(self, ctx, op)

    def final(self, ctx):
        for st in ctx.streams.values():
            want = set(st.expected())
            r = reps(st)
            cnt = {}
            for u in st.uids:
                cnt[u] = cnt.get(u, 0) + 1
                if u not in want:
                    fail('invented', 'event %d', u)
                if cnt[u] > r and not st.set['pick_random_files_forever']:
                    fail('repeated', 'event %d delivered %d times, '
                         'repetitions %d', u, cnt[u], r)


class P07(Prop):
    id = 'P07'
    check = Killed

    def plan(self, rng, tier):
        finite = rng.random() < .7
        p = base_plan(rng, nmax=6, finite=finite)
        g = p['gens'][0]
        for key in ('args', 'kwargs'):
            g.pop(key, None)
        for f in p['files']:
            f.pop('expect_args', None)
        if not p['files']:
            p['files'] = gen_files(rng, 1)
            inputs_of(rng, g, p['files'], [0])
        if not finite:
            g.pop('sel', None)
        ops = gen_consume(rng, drain=False)
        if not ops:
            ops = [['start', 0]]
        mode = rng.choice(['kill', 'death', 'both'])
        if mode != 'kill':
            for _ in range(rng.choice([1, 1, 2])):
                p['faults'].append({
                    'type': 'kill', 'pick': rng.randrange(8),
                    'step': rng.randrange(1, rng.choice([20, 100, 400]))})
            ops.append(['drain', 0] if finite else
                       ['next', 0, rng.randint(1, 40)])
        else:
            ops.append(['next', 0, rng.randint(0, 4)])
        if mode != 'death' or rng.random() < .5:
            if rng.random() < .3:
                ops.append(['pause', rng.choice([.001, .1, 3.])])
            if rng.random() < .15:
                p['ops'] = ops + [['delete', 0], ['gone']]
                return p
            ops.append(['kill', 0])
            ops.append(['gone'])
            if rng.random() < .7:
                ops.append(['drain', 0] if finite else ['next', 0, 30])
            if rng.random() < .3:
                ops.append(['kill', 0])
                ops.append(['gone'])
            if rng.random() < .6:
                s = gen_settings(rng)
                p['gens'].append({'handler': 0, 'set': s,
                                  'files': g['files'], 'input': g['input']})
                if g.get('as_str'):
                    p['gens'][1]['as_str'] = True
                ops.append(['fresh', 1])
        p['ops'] = ops
        if rng.random() < .1 and ['kill', 0] in ops:
            p['fail_start'] = rng.randint(1, g['set']['num_jobs'] + 1)
        return p

    def nontrivial(self, plan, res):
        return res.switches > 3


# ----------------------------------------------------------------- P08 -----
class Endless(Check):

    def on_end(self, ctx, st):
        fail('ended', 'endless generator ended after %d batches', st.batches)

    def final(self, ctx):
        for st in ctx.streams.values():
            s = st.set
            r = reps(st)
            want = set(st.expected())
            cnt = {}
            for u in st.uids:
                if u not in want:
                    fail('invented', 'event %d', u)
                cnt[u] = cnt.get(u, 0) + 1
            loads = {}
            for kind, path, step in EVENTS:
                if kind == 'loaded':
                    n = path.split('/')[-1]
                    loads[n] = loads.get(n, 0) + 1
            emin = min([f['n'] for f in ctx.plan['files']
                        if not f.get('bad')] or [1])
            group = max(1 + s['num_add_files'], int(np.ceil(
                np.sqrt(max(0, r - 1)) * s['batch_size'] / emin)))
            # files whose events may still be on their way
            late = (s['batch_capacity'] + 3) * s['batch_size']
            flight = (late // (group * emin * r) + 2) * group + \
                s['file_capacity'] + s['num_jobs']
            total = sum(loads.values())
            for i in st.files():
                f = ctx.plan['files'][i]
                if f.get('bad'):
                    continue
                n = loads.get(f['name'], 0)
                for u in file_uids(f):
                    if st.sel is not None and not st.sel.keeps(u):
                        continue
                    c = cnt.get(u, 0)
                    if c > r * n:
                        fail('repeated', 'event %d delivered %d times after '
                             '%d loads of its file, repetitions %d',
                             u, c, n, r)
                    if c < r * (n - flight):
                        fail('lost', 'event %d delivered %d times after %d '
                             'loads of its file, repetitions %d, at most '
                             '%d files in flight', u, c, n, r, flight)
                if n == 0 and total >= 80 and len(st.files()) <= 3:
                    fail('starved', 'file %s was never loaded in %d loads',
                         f['name'], total)
            ctx.kern.probe('endless runs with >= 80 loads'
                           if total >= 80 else 'shorter endless runs')


class P08(Prop):
    id = 'P08'
    check = Endless

    def plan(self, rng, tier):
        p = base_plan(rng, finite=False, nmax=5)
        g = p['gens'][0]
        if not p['files']:
            p['files'] = gen_files(rng, 2)
            g.pop('args', None)
            g.pop('kwargs', None)
            inputs_of(rng, g, p['files'], [0, 1])
        g.pop('sel', None)
        if len(p['files']) > 1 and rng.random() < .3:
            k = rng.randrange(len(p['files']))
            p['files'][k]['bad'] = True
            p['files'][k]['fault'] = rng.choice(FAULTS)
        p['ops'][-1] = ['next', 0, rng.choice([3, 10, 30, 80])]
        return p


# ----------------------------------------------------------------- P09 -----
class Independent(Check):
    strict = True

    def final(self, ctx):
        for st in ctx.streams.values():
            want = set(st.expected())
            if st.set['pick_random_files_forever']:
                for u in st.uids:
                    if u not in want:
                        fail('invented', 'event %d is not of generator %d',
                             u, st.index)
                continue
            if st.spec.get('dropped'):
                for u in st.uids:
                    if u not in want:
                        fail('invented', 'event %d is not of generator %d',
                             u, st.index)
                continue
            if not st.ended:
                fail('no-end', 'generator %d did not end' % st.index)
            check_multiset(st.uids, want, reps(st))


class P09(Prop):
    id = 'P09'
    check = Independent

    def plan(self, rng, tier):
        n = rng.choice([2, 2, 3])
        nh = rng.choice([1, 1, 2])
        plan = {'handlers': [{'layout': gen_layout(rng, rng.random() < .3)}
                             for _ in range(nh)],
                'files': [], 'gens': [], 'ops': [],
                'order': rng.randrange(1000),
                'np_seed': rng.randrange(2 ** 31)}
        ops = []
        tasks = 1
        for g in range(n):
            finite = rng.random() < .8
            fs = gen_files(rng, rng.randint(1, 4), prefix='abc'[g],
                           base=1000 * g)
            first = len(plan['files'])
            plan['files'] += fs
            s = gen_settings(rng, finite)
            s['num_jobs'] = min(s['num_jobs'], 3)
            tasks += s['num_jobs'] + 1
            idx = list(range(first, first + len(fs)))
            spec = inputs_of(rng, {'handler': rng.randrange(nh), 'set': s},
                             plan['files'], idx)
            if rng.random() < .3 and finite:
                spec['sel'] = [rng.choice([2, 3, 5]), rng.randrange(2)]
            plan['gens'].append(spec)
            ops.append(['start', g])
        mid = []
        for g in range(n):
            for _ in range(rng.randint(1, 6)):
                mid.append(['next', g, rng.choice([1, 1, 2])])
        for _ in range(rng.choice([0, 1, 3])):
            mid.append(['pause', rng.choice([.01, 1., 30.])])
        rng.shuffle(mid)
        if rng.random() < .5:
            rng.shuffle(ops)
            mid = ops + mid
        tail = []
        for g in range(n):
            if not plan['gens'][g]['set']['pick_random_files_forever']:
                if rng.random() < .15:
                    plan['gens'][g]['dropped'] = True
                    tail.append(['drop', g])
                else:
                    tail.append(['drain', g])
            else:
                tail.append(['next', g, 5])
        rng.shuffle(tail)
        plan['ops'] = mid + tail
        plan['sched'] = gen_sched(rng, tasks)
        plan['faults'] = gen_stalls(rng)
        return plan


# ----------------------------------------------------------------- P10 -----
DEFAULTS = {'sample_randomly': True, 'pick_random_files_forever': True,
            'file_capacity': 1, 'batch_capacity': 5, 'num_jobs': 1,
            'num_add_files': 0, 'num_repetitions': 1, 'num_splits': None,
            'verbose': False}


class Faithful(Check):
    strict = True
    signature = inspect.signature(BaseDataHandler.get_batch_generator.__get__(
        0))

    def settings(self, st):
        return dict(DEFAULTS, **st.set)

    def on_batch(self, ctx, st, batch):
        h = ctx.handlers[st.spec['handler']]
        self.arguments(ctx, st)
        sig = h.get_data_set_signature()
        spec = st.gen.element_spec
        if tuple(sig) != tuple(spec):
            fail('signature', 'published %r, elements %r', sig, spec)
        if len(batch) != len(sig):
            fail('malformed', '%d tensors, %d published', len(batch),
                 len(sig))
        for t, x, s in zip(h.tensors.list, batch, sig):
            if x.dtype.name != t.dtype:
                fail('dtype', '%s is %s, declared %s', t.name, x.dtype.name,
                     t.dtype)
            if x.dtype != s.dtype or not s.shape.is_compatible_with(x.shape):
                fail('shape', '%s is %s %r, published %r', t.name,
                     x.dtype.name, x.shape, s)
            if not t.exists:
                ctx.kern.probe('placeholders')
        return Check.on_batch(self, ctx, st, batch)

    def arguments(self, ctx, st):
        """Settings as they arrived at get_batch_generator."""
        for k, (args, kwargs) in enumerate(CALLS):
            call = self.signature.bind(*args, **kwargs)
            call.apply_defaults()
            got = dict(call.arguments)
            want = self.settings(st)
            for key, value in want.items():
                if key in got and got[key] != value:
                    fail('settings', '%s is %r, given as %r', key, got[key],
                         value)
            if got['biased_selection_module'] is not st.sel:
                fail('settings', 'the biased selection is lost')
        for n in tfdata.CALLS:
            if n != st.spec.get('capacity', 2):
                fail('settings', '%r batches are prefetched instead of %r',
                     n, st.spec.get('capacity', 2))

    def on_error(self, ctx, st, exc):
        if ctx.kern.fired.get('kill') or st.spec['handler'] in ctx.killed:
            ctx.kern.probe('dataset raised %s' % type(exc).__name__)
            return
        Check.on_error(self, ctx, st, exc)

    def op(self, ctx, op):
        if op[0] != 'ahead':
            return Check.op(self, ctx, op)
        # like P05, with the prefetched batches on top
        st = ctx.streams[0]
        s = self.settings(st)
        if len(ctx.streams) > 1 or st.sel is not None or any(
                f.get('bad') or not f['n'] for f in ctx.plan['files']):
            return
        ctx.kern.sleep(60.)
        opened = sum(1 for e in EVENTS if e[0] == 'open')
        e_file = min(f['n'] for f in ctx.plan['files'])
        r = s['num_repetitions']
        group = max(1 + s['num_add_files'], int(np.ceil(
            np.sqrt(max(0, r - 1)) * s['batch_size'] / e_file)))
        ahead = (st.batches + s['batch_capacity'] + 1 +
                 st.spec.get('capacity', 2) + 1) * s['batch_size']
        bound = (ahead // (group * e_file * r) + 1) * group + \
            s['file_capacity'] + s['num_jobs']
        if opened > bound:
            fail('unbounded', '%d files opened, at most %d expected after '
                 '%d batches were taken', opened, bound, st.batches)
        if opened < len(ctx.plan['files']):
            ctx.kern.probe('look-ahead stopped by a bound')

    def final(self, ctx):
        for st in ctx.streams.values():
            want = set(st.expected())
            s = self.settings(st)
            r = s['num_repetitions']
            short = [i for i, n in enumerate(st.sizes)
                     if n != s['batch_size']]
            if short and (s['pick_random_files_forever'] or
                          short != [len(st.sizes) - 1]):
                fail('size', 'batch sizes %r for batch_size %d',
                     st.sizes[:40], s['batch_size'])
            if s['pick_random_files_forever'] or not st.ended:
                for u in st.uids:
                    if u not in want:
                        fail('invented', 'event %d', u)
                if st.ended:
                    fail('ended', 'an endless dataset ended')
                if st.error is None and \
                        not s['pick_random_files_forever']:
                    fail('no-end', 'the dataset did not end')
                continue
            check_multiset(st.uids, want, r)
            if not s['sample_randomly'] and s['num_jobs'] == 1 and r == 1:
                order = [u for i in st.files()
                         for u in file_uids(ctx.plan['files'][i])
                         if u in want]
                if st.spec['exact'] and st.uids != order:
                    fail('order', 'delivered %r, files hold %r', st.uids,
                         order)
            ctx.kern.probe('complete passes')


class P10(Prop):
    id = 'P10'
    check = Faithful

    def plan(self, rng, tier):
        finite = rng.random() < .8
        p = base_plan(rng, rich=True, nmax=rng.choice([2, 4, 8]),
                      finite=finite)
        g = p['gens'][0]
        s = g['set']
        if not finite:
            if not p['files']:
                p['files'] = gen_files(rng, 1)
                inputs_of(rng, g, p['files'], [0])
            g.pop('sel', None)
            p['ops'][-1] = ['next', 0, rng.randint(1, 12)]
        g['tf'] = True
        g['exact'] = not any('*' in x for x in g['input'])
        if g.get('args') or rng.random() < .7:
            g['capacity'] = s['dataset_capacity'] = rng.choice(
                [1, 1, 2, 3, 6])
        if not g.get('args'):
            for key, value in DEFAULTS.items():
                if key in s and s[key] == value and rng.random() < .3:
                    del s[key]
        if not g.get('args') and p['files'] and rng.random() < .25:
            p['ops'].insert(rng.randrange(len(p['ops'])), ['ahead'])
            if p['ops'][0] == ['ahead']:
                p['ops'].insert(0, ['next', 0, 1])
            if rng.random() < .8:
                g.pop('sel', None)
                n = rng.choice([12, 25])
                p['files'] = [{'name': 'f%02d.hdf' % i, 'base': 20 * i,
                               'n': 3} for i in range(n)]
                inputs_of(rng, g, p['files'], list(range(n)))
                g['exact'] = not any('*' in x for x in g['input'])
        if rng.random() < .35:
            # further passes over the same data set
            for k in range(rng.choice([1, 1, 2])):
                p['gens'].append(dict(copy.deepcopy(g), of=0))
                tail = copy.deepcopy(gen_consume(rng, k + 1))
                if not finite:
                    tail[-1] = ['next', k + 1, rng.randint(1, 6)]
                if rng.random() < .3:
                    # while the first one is still running
                    at = rng.randrange(len(p['ops']))
                    p['ops'] = p['ops'][:at] + tail[:-1] + \
                        p['ops'][at:] + tail[-1:]
                else:
                    p['ops'] += tail
        x = rng.random()
        if x < .12:
            p['faults'].append({
                'type': 'kill', 'pick': rng.randrange(8),
                'step': rng.randrange(1, rng.choice([20, 100, 400]))})
        elif x < .4 and finite:
            add_file_faults(rng, p, rng.choice([.2, .5]), vanish=False)
        return p

    def run(self, plan, keep_log=False):
        with tfdata.simulated():
            return Prop.run(self, plan, keep_log)


# ----------------------------------------------------------------- P12 -----
class Statistics(Check):
    """Configures data transformations from the simulated pipeline."""

    def __init__(self):
        self.trafos = {}
        self.done = 0

    def op(self, ctx, op):
        if op[0] != 'trafo':
            return Check.op(self, ctx, op)
        _, t, g, n, precision, norm = op
        spec = ctx.plan['gens'][g]
        h = ctx.handlers[spec['handler']]
        paths = [ctx.path(p) for p in spec['input']]
        settings = dict(spec['set'], input_data=paths[0] if
                        spec.get('as_str') else paths,
                        **spec.get('kwargs', {}))
        given = copy.deepcopy(settings)
        trafo = self.trafos.setdefault(t, DataTransformer())
        before = trafo.data
        was = trafo.is_configured
        TAP[0] = log = []
        error = None
        try:
            trafo.configure(data_handler=h, data_iterator_settings=settings,
                            num_batches=n, float_precision=precision,
                            norm_constant=norm)
        except Exception as e:
            if ctx.kern.raised is not None:
                raise ctx.kern.raised
            error = e
        finally:
            TAP[0] = None
        if settings != given:
            fail('settings', 'the passed settings were changed')
        if error is not None:
            ctx.kern.probe('configuring raised')
            if was:
                if not trafo.is_configured or trafo.data is not before:
                    fail('state', 'a configured object was changed')
                return
            if trafo.is_configured:
                fail('state', 'configured after the failure %r', error)
            if len(log) >= n:
                fail('error', 'all %d batches were delivered, but %s: %s', n,
                     type(error).__name__, error)
            if not (ctx.kern.fired.get('kill') or
                    not spec['set']['pick_random_files_forever']):
                fail('error', '%s: %s; %r', type(error).__name__, error,
                     ctx.kern.worker_errors[:3])
            return
        if was:
            fail('state', 'configured twice')
        if len(log) < n:
            fail('state', 'configured with %d of %d batches', len(log), n)
        self.compare(h.tensors, log[:n], trafo, precision)
        if trafo.data['norm_constant'] != norm:
            fail('settings', 'norm constant %r', trafo.data['norm_constant'])
        self.done += 1
        ctx.kern.probe('transformations created')

    def compare(self, tensors, log, trafo, precision):
        if not trafo.is_configured:
            fail('state', 'not configured after success')
        tol = 1e-4 if precision == 'float32' else 1e-8
        for i, t in enumerate(tensors.list):
            if not (t.exists and t.trafo):
                for suffix in ('_mean', '_std'):
                    if t.name + suffix in trafo.data:
                        fail('statistics', '%s has a transformation', t.name)
                continue
            x = np.concatenate([b[i] for b in log]).astype('float64')
            cols = t.trafo_log
            if cols is not None:
                cols = np.array(cols, dtype=bool)
                x[..., cols] = np.log(1. + x[..., cols])
            axes = t.trafo_reduce_axes
            want = {'_mean': np.mean(np.mean(x, axis=0), axis=axes,
                                     keepdims=True),
                    '_std': np.mean(np.std(x, axis=0), axis=axes,
                                    keepdims=True)}
            flat = np.ptp(x, axis=0)
            flat = np.all(flat == 0, axis=axes, keepdims=True) if axes \
                else flat == 0
            want['_std'] = np.where(flat, 1., want['_std'])
            for suffix, value in want.items():
                got = np.asarray(trafo.data[t.name + suffix])
                if suffix == '_std' and cols is not None and \
                        got.shape == value.shape:
                    # the mean of equal logarithms may be rounded
                    tiny = flat & (got > 0) & (got < 1e-12)
                    got = np.where(tiny & np.broadcast_to(
                        cols, got.shape), 1., got)
                if got.shape != value.shape or not np.allclose(
                        got, value, rtol=tol, atol=tol):
                    fail('statistics', '%s%s of %d batches is %r instead of '
                         '%r', t.name, suffix, len(log), got.tolist(),
                         value.tolist())


class P12(Prop):
    id = 'P12'
    check = Statistics

    def plan(self, rng, tier):
        finite = rng.random() < .6
        p = base_plan(rng, rich=True, nmax=rng.choice([2, 4, 6]),
                      finite=finite, emax=rng.choice([1, 4, 9]))
        g = p['gens'][0]
        for key in ('sel', 'args', 'kwargs'):
            g.pop(key, None)
        for f in p['files']:
            f.pop('expect_args', None)
        if not p['files'] and not finite:
            p['files'] = gen_files(rng, 1)
            inputs_of(rng, g, p['files'], [0])
        # a second source to carry on with
        s = gen_settings(rng, rng.random() < .5)
        s['num_jobs'] = min(s['num_jobs'], 3)
        k = len(p['files'])
        p['files'] += gen_files(rng, rng.randint(1, 2), prefix='g',
                                base=1000)
        p['gens'].append(inputs_of(
            rng, {'handler': 0, 'set': s}, p['files'],
            list(range(k, len(p['files'])))))
        ops = []
        for _ in range(rng.choice([1, 2, 2, 3])):
            which = rng.choice([0, 0, 1])
            s = p['gens'][which]['set']
            n = rng.choice([1, 1, 2, 3, 5])
            if s['pick_random_files_forever']:
                n = rng.choice([1, 2, 5, 12, 30])
            elif rng.random() < .5:
                total = sum(p['files'][i]['n'] for i in
                            p['gens'][which]['files']) * s['num_repetitions']
                n = max(1, -(-total // s['batch_size']) +
                        rng.choice([-1, 0, 0, 1]))
            ops.append(['trafo', rng.choice([0, 0, 1]), which, n,
                        rng.choice(['float64', 'float64', 'float32']),
                        rng.choice([1e-6, 1e-4, 0.])])
            if rng.random() < .2:
                ops.append(['pause', rng.choice([.01, 3.])])
        p['ops'] = ops
        x = rng.random()
        if x < .2:
            p['faults'].append({
                'type': 'kill', 'pick': rng.randrange(8),
                'step': rng.randrange(1, rng.choice([20, 100, 400]))})
        elif x < .5 and finite:
            rest = copy.deepcopy(p['files'][k:])
            add_file_faults(rng, p, rng.choice([.2, .5]), vanish=False)
            if p['gens'][1]['set']['pick_random_files_forever']:
                p['files'][k:] = rest
        return p

    def nontrivial(self, plan, res):
        return res.probes.get('transformations created', 0) > 0


PROPS = [P01(), P02(), P03(), P04(), P05(), P06(), P07(), P08(), P09(),
         P10(), P12()]
