"""P24: reconstruction of test data, from the files to the table of results."""
from . import env
env.setup()

import contextlib
import copy
import os

import numpy as np
import pandas as pd
import tensorflow as tf
from pandas.io.pytables import read_hdf

from . import deploy as DP
from . import modsim as M
from . import mp
from . import storage as S
from .frame_props import SimFailure
from .mod_props import Run as Loads
from .modpipe_props import EndToEnd
from .pipe_props import Prop, base_plan
from .pipeline import (Violation, check_multiset, fail, file_uids, gen_files,
                       inputs_of)

from egenerator import reconstruct_test_data


class TestData(EndToEnd):

    @contextlib.contextmanager
    def surroundings(self, kern, plan, scratch):
        eager = tf.config.functions_run_eagerly()
        tf.config.run_functions_eagerly(False)
        cwd = os.getcwd()
        S.seam_datetime()
        self.evals = 0
        self.fault = None
        mp.CLOCK[0] = lambda name: 1.6e9 + kern.now / 1e6
        try:
            with EndToEnd.surroundings(self, kern, plan, scratch):
                hook, self.disk.hook = self.disk.hook, None
                with DP.quiet():
                    self.deploy(plan, scratch)
                self.disk.hook = hook
                DP.FAULT[0] = lambda: self.evaluate(kern)
                os.chdir(scratch)
                yield
        finally:
            os.chdir(cwd)
            mp.CLOCK[0] = None
            DP.FAULT[0] = None
            tf.config.run_functions_eagerly(eager)

    def make_handler(self, spec):
        return None

    def deploy(self, plan, scratch):
        """The saved managers as they were trained, and their configs."""
        d = plan['deploy']
        cfg = plan['handlers'][0]['modules']
        trained = dict(cfg, **d.get('trained', {}))
        if d.get('no_seeds'):
            trained['seeds'] = []
        for i, ws in enumerate(d['ws']):
            path = os.path.join(scratch, d['dirs'][i])
            manager = DP.make_manager(trained, ws, path)
            manager.save(path)
            DP.write_yaml(os.path.join(scratch, 'cfg_%d.yaml' % i),
                          DP.reco_config(trained, path))

    def config(self, ctx, o):
        """The configuration of one reconstruction."""
        plan = ctx.plan
        d = plan['deploy']
        cfg = plan['handlers'][0]['modules']
        trained = dict(cfg, **d.get('trained', {}))
        if d.get('no_seeds'):
            trained['seeds'] = []
        out = o['output'] if o.get('relative') else ctx.path(o['output'])
        c = DP.reco_config(trained, ctx.path(d['dirs'][0]), {
            'fit': o['fit'], 'cov': o.get('cov'), 'trafo': o['trafo'],
            'output': out, 'seed': o['seeds'] if len(o['seeds']) > 1 or
            o.get('list') else o['seeds'][0]})
        g = plan['gens'][0]
        paths = [ctx.path(p) for p in g['input']]
        c['data_iterator_settings'] = {'test': dict(
            g['set'], input_data=paths[0] if g.get('as_str') else paths)}
        r = c['reconstruction_settings']
        if d.get('trained'):
            s = M.settings(cfg)
            r['modified_data_module'] = {
                'data_module': s['data_module'],
                'data_settings': s['data_settings']}
        if d.get('label'):
            s = M.settings(cfg)
            r['modified_label_module'] = {
                'label_module': s['label_module'],
                'label_settings': s['label_settings']}
        c['model_manager_settings']['restore_model'] = not d.get('scratch')
        return c

    def evaluate(self, kern):
        self.evals += 1
        f = self.fault
        if f is None or self.evals != f['eval']:
            return 0.
        kern.count(kern.fired, '%s in the loss' % f['type'])
        f['done'] = True
        if f['type'] == 'error':
            raise SimFailure('the loss fails')
        return float(f['type'])

    def op(self, ctx, op):
        if op[0] != 'reco':
            return EndToEnd.op(self, ctx, op)
        o = op[1]
        st = ctx.streams.setdefault(0, Listed(ctx))
        self.evals = 0
        self.fault = dict(o['fault']) if o.get('fault') else None
        DP.write_yaml(ctx.path('reco.yaml'), self.config(ctx, o))
        configs = [ctx.path('cfg_%d.yaml' % i)
                   for i in range(len(ctx.plan['deploy']['ws']))]
        reco = ctx.path('reco.yaml')
        if o.get('default') and not o.get('cov'):
            configs[0], reco = reco, None
        out = ctx.path(o['output'])
        before = open(out, 'rb').read() if os.path.exists(out) else None
        error = None
        try:
            with DP.quiet():
                reconstruct_test_data.main.callback(configs, reco)
        except Exception as e:
            if ctx.kern.raised is not None:
                raise ctx.kern.raised
            error = e
        struck = bool(self.fault and self.fault.get('done'))
        ctx.kern.note('reco %s %d' % (type(error).__name__, self.evals))
        if error is not None:
            after = open(out, 'rb').read() if os.path.exists(out) else None
            if before != after:
                fail('output', 'a failed reconstruction changed the file of '
                     'results')
            sure, maybe = self.readable(ctx, o)
            if not struck and sure:
                fail('error', '%s; worker errors: %r', S.describe(error),
                     ctx.kern.worker_errors[:3])
            ctx.kern.count(ctx.kern.probes, 'failed reconstruction')
            return
        if struck and self.fault['type'] == 'error':
            fail('output', 'the failure of a loss is not reported')
        self.table(ctx, o, read_hdf(out, 'Variables'), struck, st)

    def table(self, ctx, o, df, struck, st):
        cfg = ctx.plan['handlers'][0]['modules']
        names = DP.names(cfg)
        want = {n + s for n in names for s in ('', '_reco', '_seed')} | {
            'loss_true', 'loss_reco', 'loss_seed'}
        if o.get('cov'):
            want |= {n + s for n in names for s in (
                '_unc', '_unc_fit', '_unc_sandwhich', '_unc_sandwhich_fit')}
            want |= {'cov_zenith_azimuth', 'cov_fit_zenith_azimuth'}
        if set(df.columns) != want:
            fail('columns', 'missing %r, not expected %r', sorted(
                want - set(df.columns)), sorted(set(df.columns) - want))
        ws = [w for part in ctx.plan['deploy']['ws'] for w in part]
        uids = [int(u) for u in df[names[4]]]
        bad = []
        for k, u in enumerate(uids):
            f = self.file_of(ctx, u)
            if f is None:
                fail('invented', 'event %d is in no file', u)
            problem = self.row(df.iloc[k], u, f, cfg, names, ws, o)
            if problem:
                bad.append('event %d: %s' % (u, problem))
        if bad and not (struck and len(bad) == 1):
            fail('result', '%s', '; '.join(bad[:3]))
        ctx.kern.count(ctx.kern.probes, 'table of results')
        if o.get('cov'):
            ctx.kern.count(ctx.kern.probes, 'covariance')
        for u in uids:
            ctx.kern.note('row %d' % u)
        sure, maybe = self.readable(ctx, o)
        # a file that could be read by chance contributes all its events
        for i in st.files():
            us = set(file_uids(ctx.plan['files'][i])) & maybe
            if us & set(uids):
                sure |= us
        check_multiset(uids, sure, max(1, int(
            st.set.get('num_repetitions', 1))))
        st.batches += len(uids)
        self.events = len(uids)

    def readable(self, ctx, o):
        cfg = ctx.plan['handlers'][0]['modules']
        seeds = [s for s in o['seeds'] if s != 'x_parameters']
        if not seeds and not ctx.plan['deploy'].get('no_seeds'):
            seeds = cfg['seeds']
        run = Loads({'cfg': dict(cfg, seeds=seeds)})
        sure, maybe = set(), set()
        for i in ctx.plan['gens'][0]['files']:
            f = ctx.plan['files'][i]
            us = set(u for u in file_uids(f) if M.passes(u, cfg))
            if f.get('vanish') or f.get('fault'):
                maybe |= us
            elif run.complete(f):
                sure |= us
        return sure, maybe

    def row(self, row, u, f, cfg, names, ws, o):
        missing = tuple(f.get('missing', ()))
        e = M.expected_event(u, cfg, missing)
        truth = np.asarray(e['x_parameters'], dtype='float64')
        got = {s: np.array([row[n + s] for n in names], dtype='float64')
               for s in ('', '_reco', '_seed')}
        if not np.allclose(got[''], truth, rtol=1e-5, atol=1e-5):
            return 'the true parameters are %r' % (got[''],)
        t = DP.targets(u, cfg, ws, missing)
        fit = np.array(DP.fit_flags(o['fit'], cfg))
        best = []
        for s in o['seeds']:
            seed = np.asarray(e[s], dtype='float64')
            r = np.where(fit, t.mean(axis=0), seed)
            best.append((DP.loss_of(r, t), r, seed, s))
        low = min(b[0] for b in best)
        tol = 1e-3 * low + .05
        why = None
        for loss, r, seed, s in best:
            if loss > low + tol:
                continue
            why = None
            if not np.allclose(got['_seed'], seed, rtol=1e-5, atol=1e-5):
                why = 'the seed %s is %r' % (s, got['_seed'])
                continue
            x = got['_reco']
            lim = np.where(fit, .02 + 2e-3 * abs(r) + DP.resolution(loss),
                           1e-3 + 1e-4 * abs(r))
            if not np.all(abs(x - r) <= lim):
                i = int(np.argmax(~(abs(x - r) <= lim)))
                why = '%s is %r, expected %r' % (names[i], x[i], r[i])
                continue
            for key, v in (('loss_reco', loss),
                           ('loss_seed', DP.loss_of(seed, t)),
                           ('loss_true', DP.loss_of(truth, t))):
                if not abs(row[key] - v) <= .05 + 2e-3 * abs(v):
                    why = '%s is %r, expected %r' % (key, row[key], v)
            if why is None:
                break
        if why is None and o.get('cov'):
            for j, n in enumerate(names):
                v = np.sqrt(1. / (2. * (1 + j) * len(ws)))
                if not abs(row[n + '_unc'] - v) < 1e-3:
                    return 'the uncertainty of %s is %r, expected %r' % (
                        n, row[n + '_unc'], v)
            if not abs(row['cov_zenith_azimuth']) < 1e-3:
                return 'the covariance of zenith and azimuth is %r' % (
                    row['cov_zenith_azimuth'],)
        return why

    def final(self, ctx):
        ctx.kern.settle(120.)
        if self.disk.open:
            fail('handle', '%d files are still open', len(self.disk.open))


class Listed(object):
    """Stands for the generator within the script."""

    def __init__(self, ctx):
        self.spec = ctx.plan['gens'][0]
        self.set = self.spec['set']
        self.batches = 0
        self.gen = self.it = None
        self.ended = True

    def files(self):
        return self.spec['files']


class P24(Prop):
    id = 'P24'
    check = TestData

    def plan(self, rng, tier):
        w = DP.gen_world(rng)
        cfg = w['cfg']
        p = base_plan(rng, nmax=rng.choice([1, 2, 3]), emax=2)
        g = p['gens'][0]
        for key in ('sel', 'args', 'kwargs'):
            g.pop(key, None)
        if not p['files'] or rng.random() < .2:
            p['files'] = gen_files(rng, 2, emax=3)
            inputs_of(rng, g, p['files'], [0, 1])
        g['set']['batch_size'] = 1
        g['set']['num_repetitions'] = rng.choice([1, 1, 1, 1, 2])
        if rng.random() < .25:
            cfg['constraints'] = [['Quality', 'quality', rng.choice('<>'),
                                   .2]]
        p['handlers'] = [{'modules': cfg}]
        faulty = rng.choice([0., .3, .6])
        tabs = ['pulses', 'labels', 'label', 'snow', 'dom', 'tw'] + \
            cfg['seeds']
        if cfg['discard']:
            tabs.remove('dom')
        for i, f in enumerate(p['files']):
            f.pop('expect_args', None)
            if rng.random() < .5:
                f['riffle'] = True
            x = rng.random()
            if x < .3 * faulty:
                f['vanish'] = True
                if rng.random() < .5:
                    f['vanish_at'] = 'open'
                else:
                    p['faults'].append({
                        'type': 'vanish', 'file': i,
                        'step': rng.choice([1, rng.randrange(1, 100)])})
            elif x < .6 * faulty:
                f['fault'] = {'at': rng.choice([1, 2, 3, 4, 5]),
                              'type': rng.choice(['io', 'blosc', 'memory',
                                                  'corrupt']),
                              'maybe': True}
            elif x < faulty:
                f['missing'] = [rng.choice(tabs)]
        ws = w['ws']
        if len(ws) > 1 and rng.random() < .7:
            c = rng.randrange(1, len(ws))
            parts = [ws[:c], ws[c:]]
        else:
            parts = [ws]
        d = {'ws': parts, 'dirs': ['m/model_%d' % i for i in
                                   range(len(parts))]}
        if rng.random() < .2:
            d['dirs'] = [x + '_v1.2' for x in d['dirs']]
        if rng.random() < .5:
            d['no_seeds'] = True
        if rng.random() < .3 and cfg['dom_key']:
            d['trained'] = {'dom_key': 'OtherDoms'}
        if rng.random() < .3:
            d['label'] = True
        if rng.random() < .15:
            d['scratch'] = True
        p['deploy'] = d
        p['ops'] = []
        for k in range(rng.choice([1, 1, 2])):
            fit = DP.gen_fit(rng, cfg)
            o = {'fit': fit, 'trafo': rng.random() < .7,
                 'seeds': rng.sample(cfg['seeds'], rng.randint(
                     1, len(cfg['seeds']))),
                 'output': rng.choice(['out.hdf5', 'res/a.b/out.hdf5',
                                       'res/out_v1.2.hdf5'])}
            if rng.random() < .2:
                o['seeds'] = ['x_parameters'] + (
                    o['seeds'] if rng.random() < .5 else [])
            if rng.random() < .4:
                o['relative'] = True
            if rng.random() < .4:
                o['list'] = True
            if rng.random() < .3:
                o['default'] = True
            if all(DP.fit_flags(fit, cfg)) and rng.random() < .3:
                o['cov'] = True
            if rng.random() < faulty / 2:
                o['fault'] = {'eval': rng.choice([1, 2, 3, 9, 20, 40]),
                              'type': rng.choice(['error', 'nan', 'inf'])}
            p['ops'].append(['reco', o])
        if rng.random() < .2:
            # a table is there already, and the next attempt fails
            first, last = p['ops'][0][1], copy.deepcopy(p['ops'][-1][1])
            first.pop('fault', None)
            last['output'] = first['output']
            last['fault'] = {'eval': rng.choice([1, 2, 3, 9]),
                             'type': 'error'}
            p['ops'][1:] = [['reco', last]]
        return p

    def nontrivial(self, plan, res):
        return 'table of results' in res.probes

    def shrink(self, plan):
        for q in Prop.shrink(self, plan):
            yield q
        for i, op in enumerate(plan['ops']):
            if len(plan['ops']) > 1:
                p = copy.deepcopy(plan)
                p['ops'].pop(i)
                yield p
            for key in ('fault', 'cov', 'relative', 'list', 'default'):
                if op[1].get(key):
                    p = copy.deepcopy(plan)
                    del p['ops'][i][1][key]
                    yield p
            if op[1]['fit'] != [True, {}]:
                p = copy.deepcopy(plan)
                p['ops'][i][1]['fit'] = [True, {}]
                yield p
            for s in op[1]['seeds']:
                if len(op[1]['seeds']) > 1:
                    p = copy.deepcopy(plan)
                    p['ops'][i][1]['seeds'] = [s]
                    yield p
        d = plan['deploy']
        for key in ('no_seeds', 'trained', 'label', 'scratch'):
            if d.get(key):
                p = copy.deepcopy(plan)
                del p['deploy'][key]
                yield p
        if len(d['ws']) > 1 or len(d['ws'][0]) > 1:
            p = copy.deepcopy(plan)
            p['deploy']['ws'] = [d['ws'][0][:1]]
            p['deploy']['dirs'] = d['dirs'][:1]
            yield p
        for key in ('dom_key', 'tw_key', 'quant', 'discard', 'icetop',
                    'sparse'):
            if plan['handlers'][0]['modules'].get(key):
                p = copy.deepcopy(plan)
                p['handlers'][0]['modules'][key] = None
                if key == 'dom_key':
                    p['deploy'].pop('trained', None)
                yield p


PROPS = [P24()]
