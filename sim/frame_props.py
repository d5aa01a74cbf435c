"""P23: trained models applied to the frames of an icetray job."""
from . import env
env.setup()

import copy
import os
import zlib

import numpy as np
import tensorflow as tf

from . import deploy as DP
from . import modsim as M
from . import mp
from . import storage as S
from . import store
from .mod_props import Run as Loads
from .pipeline import Result, Violation, fail
from .storage import describe

from egenerator.ic3.reconstruction import EventGeneratorReconstruction


class Stop(BaseException):
    """The user interrupts the program."""


class SimFailure(Exception):
    pass


class Frame(M.SimFrame):
    """A frame as icetray has it: a key can be written only once."""

    def __setitem__(self, key, value):
        if key in self:
            raise RuntimeError('frame already contains %r' % key)
        dict.__setitem__(self, key, value)


class Run(object):

    def __init__(self, plan):
        self.plan = plan
        self.cfg = plan['cfg']
        self.hash = 0
        self.steps = 0
        self.log = []
        self.probes = {}
        self.fired = {}
        self.calls = 0
        self.now = 1e6
        self.total = 0.
        self.evals = 0
        self.fault = None
        self.poisoned = False
        self.loads = Loads({'cfg': self.cfg})

    def note(self, *x):
        text = repr(x)
        self.hash = zlib.crc32(text.encode(), self.hash)
        self.log.append(text)

    def count(self, where, what):
        where[what] = where.get(what, 0) + 1

    def advance(self, dt):
        self.now += dt
        self.total += abs(dt)

    def clock(self, name):
        return self.now

    def evaluate(self):
        self.evals += 1
        self.steps += 1
        self.advance(.01)
        f = self.fault
        if f is None or 'eval' not in f or self.evals != f['eval']:
            return 0.
        self.count(self.fired, '%s in the loss' % f['type'])
        f['done'] = True
        if f['type'] == 'jump':
            self.now += f['dt']
            return 0.
        self.poisoned = True
        if f['type'] == 'error':
            raise SimFailure('the loss fails')
        return float(f['type'])

    # -- deployment --------------------------------------------------------
    def deploy(self, base):
        self.modules = []
        for k, spec in enumerate(self.plan['modules']):
            dirs = []
            for i, ws in enumerate(spec['ws']):
                name = 'model_%d_%d%s' % (k, i, spec.get('suffix', ''))
                d = os.path.join(base, name)
                manager = DP.make_manager(self.cfg, ws, d)
                manager.save(d)
                DP.write_yaml(os.path.join(os.path.splitext(d)[0],
                                           'reco_config.yaml'),
                              DP.reco_config(self.cfg, d))
                dirs.append(name)
            args = {
                'model_names': dirs if len(dirs) > 1 or spec.get('list')
                else dirs[0],
                'model_base_dir': base,
                'seed_keys': list(spec['seeds']) if len(spec['seeds']) > 1
                or spec.get('list') else spec['seeds'][0],
                'output_key': spec['output'],
                'pulse_key': 'Pulses',
                'dom_exclusions_key': self.cfg['dom_key'],
                'time_exclusions_key': self.cfg['tw_key'],
                'num_threads': 0,
                'minimize_in_trafo_space': spec['trafo'],
                'minimize_parameter_default_value': spec['fit'][0],
                'minimize_parameter_dict': dict(spec['fit'][1]),
                'add_covariances': bool(spec.get('cov')),
            }
            if spec.get('bounds'):
                args['scipy_optimizer_settings'] = {
                    'method': 'L-BFGS-B',
                    'bounds': copy.deepcopy(spec['bounds'])}
            if spec.get('absolute'):
                args['model_base_dir'] = None
                names = [os.path.join(base, d) for d in dirs]
                args['model_names'] = names if len(names) > 1 else names[0]
            m = EventGeneratorReconstruction(args)
            m.Configure()
            self.modules.append(m)
            self.note('configured', k)

    # -- one frame ---------------------------------------------------------
    def body(self, disk, base):
        with DP.quiet():
            self.deploy(base)
            for op in self.plan['ops']:
                self.frame(disk, op)
                self.calls += 1

    def frame(self, disk, op):
        f = self.plan['frames'][op[1]]
        uid = f['uid']
        o = op[2]
        frame = Frame(M.frame_of(uid, self.cfg, f))
        before = dict(frame)
        for k, m in enumerate(self.modules):
            spec = self.plan['modules'][k]
            self.fault = o.get('fault') if o.get('module', 0) == k else None
            if self.fault is not None:
                self.fault = dict(self.fault)
            self.evals = 0
            self.poisoned = False
            disk.n = 0
            del disk.trace[:]
            disk.fault = self.fault if self.fault and 'at' in self.fault \
                else None
            DP.FAULT[0] = self.evaluate
            pushed = len(m.pushed)
            error = None
            try:
                m.Physics(frame)
            except M.Interrupted as e:
                error = e
            except Exception as e:
                error = e
            finally:
                DP.FAULT[0] = None
            fired = bool(self.fault and self.fault.get('done'))
            if disk.fault is not None and disk.fault.get('done'):
                self.count(self.fired, '%s at a frame' % disk.fault['type'])
            self.steps += disk.n
            self.note('frame', op[1], k, fired, type(error).__name__,
                      self.evals)
            for key in before:
                if dict.get(frame, key) is not before[key]:
                    fail('frame', 'the module changed %r', key)
            new = set(frame) - set(before)
            if error is not None:
                if new:
                    fail('partial', 'a frame that could not be reconstructed '
                         'got %r', sorted(new))
                if len(m.pushed) != pushed:
                    fail('partial', 'a frame that could not be reconstructed '
                         'was passed on')
                if not fired and self.complete(f):
                    fail('error', '%s', describe(error))
                self.count(self.probes, 'failed frame')
                return
            if m.pushed[pushed:] != [frame] or m.pushed[-1] is not frame:
                fail('push', '%d frames passed on', len(m.pushed) - pushed)
            self.results(frame, new, spec, uid, f)
            before = dict(frame)

    def complete(self, f):
        return self.loads.complete(f) and not f.get('bad_mask')

    def results(self, frame, new, spec, uid, f):
        """What the frame holds now is what belongs to its event."""
        out = spec['output']
        want = {out, out + '_I3Particle'}
        if spec.get('cov'):
            want |= {out + '_cov_matrix_' + n for n in (
                'cov', 'cov_sand', 'cov_trafo', 'cov_sand_trafo', 'cov_fit',
                'cov_sand_fit', 'cov_fit_trafo', 'cov_sand_fit_trafo')}
        if new != want:
            fail('keys', 'the frame got %r, expected %r', sorted(new),
                 sorted(want))
        res = dict.__getitem__(frame, out)
        names = DP.names(self.cfg)
        tray = ['reco_' + s for s in spec['seeds']] + ['reco']
        keys = set(names) | {'minimization_success', 'loss_reco',
                             'loss_seed'} | {'runtime_' + n for n in tray}
        if spec.get('cov'):
            keys.add('runtime_covariance')
        if set(res) != keys:
            fail('keys', 'the results are %r, expected %r', sorted(res),
                 sorted(keys))
        p = dict.__getitem__(frame, out + '_I3Particle')
        got = {'x': p.pos.x, 'y': p.pos.y, 'z': p.pos.z,
               'zenith': p.dir.zenith, 'azimuth': p.dir.azimuth,
               'energy': p.energy, 'time': p.time}
        for n, v in got.items():
            if v != res[n] and not (np.isnan(v) and np.isnan(res[n])):
                fail('particle', '%s of the particle is %r, of the results '
                     '%r', n, v, res[n])
        if self.poisoned:
            self.count(self.probes, 'unusable loss')
            return
        x = np.array([res[n] for n in names])
        ws = [w for part in spec['ws'] for w in part]
        t = DP.targets(uid, self.cfg, ws, tuple(f.get('missing', ())))
        fit = np.array(DP.fit_flags(spec['fit'], self.cfg))
        best = []
        for s in spec['seeds']:
            seed = np.float32(DP.seed_values(uid, s, self.cfg))
            r = np.where(fit, DP.clip(t.mean(axis=0), spec.get('bounds')),
                         seed)
            best.append((DP.loss_of(r, t), r, DP.loss_of(seed, t), s))
        low = min(b[0] for b in best)
        tol = 1e-3 * low + .05
        problems = []
        for loss, r, loss_seed, s in best:
            if loss > low + tol:
                continue
            bad = [n for n, a, b, c in zip(names, x, r, fit)
                   if abs(a - b) > (.02 + 2e-3 * abs(b) +
                                    DP.resolution(loss) if c
                                    else 1e-3 + 1e-4 * abs(b))]
            if bad:
                problems.append('%s: %s' % (s, ', '.join(
                    '%s is %r, expected %r' % (n, res[n],
                                               r[names.index(n)])
                    for n in bad[:3])))
            elif abs(res['loss_reco'] - loss) > tol + 1e-3 * loss:
                problems.append('%s: the loss is %r, expected %r' % (
                    s, res['loss_reco'], loss))
            elif abs(res['loss_seed'] - loss_seed) > .05 + \
                    1e-3 * loss_seed:
                problems.append('%s: the loss of the seed is %r, expected %r'
                                % (s, res['loss_seed'], loss_seed))
            else:
                problems = []
                break
        if problems:
            fail('result', 'event %d: %s', uid, '; '.join(problems))
        self.count(self.probes, 'reconstructed frame')
        if spec.get('cov'):
            cov = dict.__getitem__(frame, out + '_cov_matrix_cov')
            for i, a in enumerate(names):
                for j, b in enumerate(names[i:], i):
                    v = cov.get('%s_%s' % (a, b))
                    w = 1. / (2. * (1 + j) * len(ws)) if i == j else 0.
                    if v is None or not abs(v - w) < 1e-3:
                        fail('covariance', 'of %s and %s is %r, expected %r',
                             a, b, v, w)
            self.count(self.probes, 'covariance')
        self.note('result', uid, [round(float(v), 1) for v in x])


class P23(object):
    id = 'P23'

    def known(self, plan, violation):
        return None

    def plan(self, rng, tier):
        w = DP.gen_world(rng)
        cfg = w['cfg']
        p = {'cfg': cfg, 'modules': [], 'frames': [], 'ops': []}
        faulty = rng.choice([0., .2, .5])
        for k in range(rng.choice([1, 1, 2])):
            ws = w['ws'] if k == 0 else rng.sample([.25, .75, 2.], rng.choice(
                [1, 2]))
            if len(ws) > 1 and rng.random() < .5:
                c = rng.randrange(1, len(ws))
                parts = [ws[:c], ws[c:]]
            else:
                parts = [ws]
            n = rng.randint(1, len(cfg['seeds']))
            m = {'ws': parts, 'seeds': rng.sample(cfg['seeds'], n),
                 'fit': DP.gen_fit(rng, cfg), 'trafo': rng.random() < .7,
                 'output': 'Out%d' % k}
            if rng.random() < .15 and all(DP.fit_flags(m['fit'], cfg)):
                m['cov'] = True
            if rng.random() < .3:
                m['list'] = True
            if rng.random() < .3:
                m['absolute'] = True
            if rng.random() < .1:
                m['suffix'] = '.v1'
            if rng.random() < .2:
                m['bounds'] = DP.gen_bounds(rng, cfg)
            p['modules'].append(m)
        tabs = ['pulses', 'dom', 'tw', 'snow', 'quality'] + cfg['seeds']
        if cfg['discard']:
            tabs.remove('dom')
        for i in range(rng.randint(2, 5)):
            f = {'uid': rng.randrange(60)}
            if rng.random() < .3:
                f['mask'] = rng.choice([1, 2])
                if rng.random() < faulty / 2:
                    f['bad_mask'] = True
            if rng.random() < .4:
                f['particles'] = True
            if rng.random() < faulty / 2:
                f['missing'] = [rng.choice(tabs)]
            p['frames'].append(f)
        for _ in range(rng.randint(2, 7)):
            o = {}
            if rng.random() < faulty:
                o['module'] = rng.randrange(len(p['modules']))
                if rng.random() < .5:
                    o['fault'] = {'at': rng.choice([1, 2, 3, 4, 6, 9]),
                                  'type': rng.choice(['io', 'memory',
                                                      'corrupt',
                                                      'interrupt'])}
                else:
                    o['fault'] = {'eval': rng.choice([1, 2, 3, 5, 9, 20]),
                                  'type': rng.choice(['error', 'nan', 'inf',
                                                      'jump'])}
                    if o['fault']['type'] == 'jump':
                        o['fault']['dt'] = rng.choice([-1e7, -3., 1e7])
            p['ops'].append(['frame', rng.randrange(len(p['frames'])), o])
        return p

    def run(self, plan, keep_log=False):
        res = Result()
        res.violation = None
        eager = tf.config.functions_run_eagerly()
        tf.config.run_functions_eagerly(False)
        r = Run(plan)
        S.seam_datetime()
        mp.CLOCK[0] = r.clock
        try:
            with store.Scratch() as sc, M.access() as disk:
                base = os.path.join(sc.path, 'models')
                os.makedirs(base)
                r.body(disk, base)
        except Violation as e:
            res.violation = (e.kind, e.info)
        except Exception as e:
            if not S.in_repo(e):
                raise
            res.violation = ('error', describe(e))
        finally:
            mp.CLOCK[0] = None
            DP.FAULT[0] = None
            tf.config.run_functions_eagerly(eager)
        res.hash = r.hash
        res.steps = r.steps
        res.sim_s = r.total
        res.deviations = []
        res.fired = r.fired
        res.probes = r.probes
        res.switches = r.calls
        res.log = r.log
        res.worker_errors = []
        res.api_calls = r.calls
        return res

    def nontrivial(self, plan, res):
        return 'reconstructed frame' in res.probes

    def sample(self, plan, res):
        return {'plan': {k: v for k, v in plan.items()
                         if k not in ('seed', 'property')},
                'loss_evaluations_and_accesses': res.steps,
                'fired': res.fired, 'probes': res.probes,
                'trace_hash': '%08x' % res.hash}

    def shrink(self, plan):
        for i in range(len(plan['ops'])):
            p = copy.deepcopy(plan)
            p['ops'].pop(i)
            yield p
        if len(plan['modules']) > 1:
            for i in range(len(plan['modules'])):
                p = copy.deepcopy(plan)
                p['modules'].pop(i)
                for op in p['ops']:
                    if op[2].get('module') == i:
                        op[2].pop('fault', None)
                    op[2].pop('module', None)
                yield p
        for i, m in enumerate(plan['modules']):
            if len(m['ws']) > 1 or len(m['ws'][0]) > 1:
                p = copy.deepcopy(plan)
                p['modules'][i]['ws'] = [m['ws'][0][:1]]
                yield p
            if len(m['seeds']) > 1:
                for s in m['seeds']:
                    p = copy.deepcopy(plan)
                    p['modules'][i]['seeds'] = [s]
                    yield p
            if m['fit'] != [True, {}]:
                p = copy.deepcopy(plan)
                p['modules'][i]['fit'] = [True, {}]
                yield p
            for key in ('cov', 'list', 'absolute', 'suffix', 'bounds'):
                if m.get(key):
                    p = copy.deepcopy(plan)
                    del p['modules'][i][key]
                    yield p
        for i, f in enumerate(plan['frames']):
            for key in ('mask', 'bad_mask', 'particles', 'missing'):
                if f.get(key):
                    p = copy.deepcopy(plan)
                    del p['frames'][i][key]
                    yield p
        for i, op in enumerate(plan['ops']):
            if op[2].get('fault'):
                p = copy.deepcopy(plan)
                p['ops'][i][2] = {}
                yield p
        for key in ('dom_key', 'tw_key', 'quant', 'discard', 'icetop',
                    'sparse'):
            if plan['cfg'].get(key):
                p = copy.deepcopy(plan)
                p['cfg'][key] = None
                yield p


PROPS = [P23()]
