"""Runs many seeds of one property, minimises and replays failures."""
import copy
import json
import os
import random
import subprocess
import sys
import time
import zlib

REAL_TIME = time.time
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
WORKERS = int(os.environ.get('SIM_WORKERS', '8'))


def rng_for(prop_id, base_seed, index):
    return random.Random('%s/%d/%d' % (prop_id, base_seed, index))


def load(prop_id):
    from . import registry
    return registry.get(prop_id)


def execute(prop, plan, keep_log=False):
    """One run.  What the oracles stumble over is wrong, too: a missing entry
    or attribute of a result, or an error of the code under test where none is
    expected."""
    from . import kernel
    try:
        return prop.run(plan, keep_log)
    except (kernel.HarnessError, MemoryError):
        raise
    except Exception as e:
        if isinstance(e, OSError) and e.errno in (24, 28):
            raise           # the real machine has run out of something
        from .pipeline import Result
        import traceback
        where = traceback.extract_tb(e.__traceback__)[-1]
        res = Result()
        res.violation = ('exception ' + type(e).__name__, '%s: %s (%s:%d)' % (
            type(e).__name__, str(e)[:300], os.path.basename(where.filename),
            where.lineno))
        res.hash = zlib.crc32(res.violation[1].encode())
        res.steps = res.switches = res.batches = 0
        res.sim_s = 0.
        res.deviations, res.fired, res.probes = [], {}, {}
        res.log = traceback.format_exc().splitlines()
        res.worker_errors = []
        return res


# ------------------------------------------------------------- worker ------
def worker(prop_id, base_seed, tier, start, stride, total, deadline):
    """Child process: runs its share of the seeds, one JSON line each."""
    from . import env
    env.setup()
    from . import mp
    clock = mp.REAL['time.time']
    prop = load(prop_id)
    import gc
    gc.collect()
    gc.freeze()
    # the code under test prints; results go through a channel of their own
    out = os.fdopen(os.dup(1), 'w')
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    hashes = set()
    agg = {'runs': 0, 'nontrivial': 0, 'steps': 0, 'sim_s': 0.,
           'switches': 0, 'fired': {}, 'probes': {}, 'hashes': [],
           'samples': [], 'policies': {}, 'skipped': 0}
    t0 = clock()
    for i in range(start, total, stride):
        if clock() > deadline:
            agg['skipped'] += 1
            continue
        plan = prop.plan(rng_for(prop_id, base_seed, i), tier)
        plan['seed'] = [base_seed, i]
        plan['property'] = prop_id
        res = execute(prop, plan)
        agg['runs'] += 1
        agg['steps'] += res.steps
        agg['sim_s'] += res.sim_s
        agg['switches'] += res.switches
        for table in ('fired', 'probes'):
            for k, v in getattr(res, table).items():
                agg[table][k] = agg[table].get(k, 0) + v
        pol = plan.get('sched', {}).get('policy')
        if pol:
            agg['policies'][pol] = agg['policies'].get(pol, 0) + 1
        if prop.nontrivial(plan, res):
            agg['nontrivial'] += 1
            hashes.add(res.hash)
        if i < 3 * stride and len(agg['samples']) < 1:
            agg['samples'].append(prop.sample(plan, res))
        if res.violation is not None:
            out.write(json.dumps({'violation': res.violation, 'plan': plan,
                                  'deviations': res.deviations,
                                  'hash': res.hash}) + '\n')
            out.flush()
            if not prop.known(plan, res.violation):
                break
    agg['hashes'] = sorted(hashes)
    agg['wall'] = clock() - t0
    out.write(json.dumps({'done': agg}) + '\n')
    out.flush()


# ------------------------------------------------------------ minimise -----
def deviate(plan, res):
    p = copy.deepcopy(plan)
    sched = {'policy': 'default', 'seed': plan['sched'].get('seed', 0),
             'deviations': [list(d) for d in res.deviations]}
    if 'fair_after' in plan['sched']:
        sched['fair_after'] = plan['sched']['fair_after']
    p['sched'] = sched
    return p


def minimise(prop, plan, kind, budget, clock):
    """A smaller plan with the same kind of violation."""
    end = clock() + budget
    best = copy.deepcopy(plan)

    def fails(p):
        try:
            r = execute(prop, p)
        except Exception:
            return None
        if r.violation is not None and r.violation[0] == kind and \
                not prop.known(p, r.violation):
            return r
        return None
    scheduled = 'sched' in plan

    # structure first, each under a few schedules
    changed = True
    while changed and clock() < end:
        changed = False
        for p in prop.shrink(best):
            if clock() > end:
                break
            scheds = [None]
            if scheduled:
                s0 = dict(best['sched'])
                scheds = [s0, {'policy': 'default', 'seed': 0}] + [
                    {'policy': 'random', 'seed': k} for k in range(4)]
            for s in scheds:
                if s is not None:
                    p = dict(p, sched=dict(s))
                if fails(p) is not None:
                    best = p
                    changed = True
                    break
            if changed:
                break
    # then the schedule as a list of deviations from the default rule
    if scheduled:
        r = fails(best)
        if r is not None:
            cand = deviate(best, r)
            if fails(cand) is not None:
                best = cand
                devs = best['sched']['deviations']
                n = 2
                while len(devs) > 0 and clock() < end:
                    size = max(1, len(devs) // n)
                    hit = False
                    for a in range(0, len(devs), size):
                        rest = devs[:a] + devs[a + size:]
                        p = copy.deepcopy(best)
                        p['sched']['deviations'] = rest
                        if fails(p) is not None:
                            best, devs, hit = p, rest, True
                            n = max(2, n - 1)
                            break
                        if clock() > end:
                            break
                    if not hit:
                        if size == 1:
                            break
                        n = min(len(devs), n * 2)
    return best


def minimise_main(path):
    """Child process: minimise the plan in a file, write the replay file."""
    from . import env
    env.setup()
    from . import mp
    clock = mp.REAL['time.time']
    with open(path) as f:
        rec = json.load(f)
    prop = load(rec['plan']['property'])
    kind = rec['violation'][0]
    plan = minimise(prop, rec['plan'], kind, rec.get('budget', 60.), clock)
    res = execute(prop, plan, True)
    if res.violation is None:
        plan = rec['plan']
        res = execute(prop, plan, True)
    if res.violation is None:
        # fall back to the recorded schedule
        if 'sched' in plan:
            plan['sched'] = {'policy': 'default', 'seed': 0,
                             'deviations': rec['deviations']}
        res = execute(prop, plan, True)
    out = {
        'property': rec['plan']['property'],
        'violation': list(res.violation or ('not-reproduced', '')),
        'seed': rec['plan'].get('seed'),
        'trace_hash': '%08x' % res.hash,
        'plan': plan,
        'trace': (res.log or [])[-400:],
        'worker_errors': getattr(res, 'worker_errors', []),
    }
    with open(path, 'w') as f:
        json.dump(out, f, indent=1)


def replay_main(path):
    """Child process: execute a replay file; exit 1 if it fails the same."""
    from . import env
    env.setup()
    with open(path) as f:
        rec = json.load(f)
    prop = load(rec['property'])
    res = execute(prop, rec['plan'], True)
    same = res.violation is not None and \
        list(res.violation) == list(rec['violation']) and \
        '%08x' % res.hash == rec['trace_hash']
    if os.environ.get('SIM_VERBOSE'):
        for line in res.log or []:
            print(line)
    print('violation:', res.violation)
    print('trace hash %08x, recorded %s' % (res.hash, rec['trace_hash']))
    if res.violation is None:
        print('no violation')
        return 0
    print('replay is %s' % ('exact' if same else 'DIFFERENT'))
    print('VIOLATION property=%s replay=%s' % (rec['property'], path))
    return 1


# -------------------------------------------------------------- check ------
def spawn(args, **kw):
    e = dict(os.environ)
    e['PYTHONPATH'] = VERIF
    e.setdefault('PYTHONHASHSEED', '0')
    e['OMP_NUM_THREADS'] = '1'
    return subprocess.Popen([sys.executable, '-m', 'sim.cli'] + args,
                            cwd=VERIF, env=e, **kw)


def known_findings():
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f)['findings']


def check(prop_id, tier, seed):
    t0 = REAL_TIME()
    from . import meta
    m = meta.META[prop_id]
    total = m['runs'][tier]
    budget = m.get('budget', {'quick': 420., 'thorough': 3300.})[tier]
    floor = m.get('floor', 100)
    workers = WORKERS
    deadline = t0 + budget
    procs = [spawn(['worker', prop_id, str(seed), tier, str(w), str(workers),
                    str(total), repr(deadline)],
                   stdout=subprocess.PIPE, stderr=subprocess.PIPE)
             for w in range(workers)]
    import selectors
    import threading
    sel = selectors.DefaultSelector()
    bufs = {}
    errs = {}

    def drain(p, i):
        errs[i] = p.stderr.read()
    threads = []
    for i, p in enumerate(procs):
        sel.register(p.stdout, selectors.EVENT_READ, i)
        bufs[i] = b''
        th = threading.Thread(target=drain, args=(p, i), daemon=True)
        th.start()
        threads.append(th)
    done = []
    bad = []
    known = []
    open_n = len(procs)
    first_bad = None
    from . import findings
    while open_n:
        left = deadline + 120 - REAL_TIME()
        if first_bad is not None:
            left = min(left, first_bad + 20 - REAL_TIME())
        if left <= 0:
            break
        for key, _ in sel.select(timeout=min(left, 5.)):
            data = os.read(key.fileobj.fileno(), 1 << 20)
            i = key.data
            if not data:
                sel.unregister(key.fileobj)
                open_n -= 1
                continue
            bufs[i] += data
            while b'\n' in bufs[i]:
                line, bufs[i] = bufs[i].split(b'\n', 1)
                try:
                    rec = json.loads(line)
                except ValueError:
                    continue
                if 'done' in rec:
                    done.append(rec['done'])
                elif 'violation' in rec:
                    k = findings.match(prop_id, rec['plan'],
                                       rec['violation'])
                    if k is not None:
                        known.append((k, rec))
                        continue
                    bad.append(rec)
                    if first_bad is None:
                        first_bad = REAL_TIME()
    hung = False
    for p in procs:
        if p.poll() is None:
            try:
                p.wait(timeout=0 if (bad or open_n) else 10)
            except subprocess.TimeoutExpired:
                hung = True
                p.kill()
        p.wait()
    for th in threads:
        th.join(5)
    crashed = [i for i, p in enumerate(procs)
               if p.returncode != 0 and not (bad and p.returncode == -9)]
    agg = {'runs': 0, 'nontrivial': 0, 'steps': 0, 'sim_s': 0.,
           'switches': 0, 'skipped': 0}
    fired, probes, policies, hashes, samples = {}, {}, {}, set(), []
    wall = 0.
    for d in done:
        for k in agg:
            agg[k] += d[k]
        for tab, src in ((fired, d['fired']), (probes, d['probes']),
                         (policies, d['policies'])):
            for k, v in src.items():
                tab[k] = tab.get(k, 0) + v
        hashes.update(d['hashes'])
        samples += d['samples']
        wall = max(wall, d['wall'])
    status = 0
    replay_path = None
    if bad:
        bad.sort(key=lambda r: r['plan']['seed'])
        rec = bad[0]
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        replay_path = os.path.join(
            VERIF, 'replays', '%s-%d-%d.json' % (
                prop_id, rec['plan']['seed'][0], rec['plan']['seed'][1]))
        rec['budget'] = 60. if tier == 'quick' else 300.
        with open(replay_path, 'w') as f:
            json.dump(rec, f)
        p = spawn(['minimise', replay_path], stdout=subprocess.DEVNULL,
                  stderr=subprocess.PIPE)
        try:
            _, err = p.communicate(timeout=rec['budget'] * 2 + 90)
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
        p = spawn(['replay', replay_path], stdout=subprocess.PIPE,
                  stderr=subprocess.STDOUT)
        try:
            out, _ = p.communicate(timeout=120)
            out = out.decode('utf8', 'replace')
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            out = 'replay timed out'
        with open(replay_path) as f:
            final = json.load(f)
        v = final['violation']
        print('%s: %s' % (v[0], v[1]))
        print('seed %r, replay with: /verif/run replay %s' % (
            final.get('seed') or rec['plan']['seed'], replay_path))
        print('\n'.join(out.strip().splitlines()[-3:-1]))
        print('VIOLATION property=%s replay=%s' % (prop_id, replay_path))
        status = 1
    elif crashed or hung or not done:
        for i in crashed:
            sys.stderr.write(errs.get(i, b'').decode('utf8', 'replace')
                             [-3000:] + '\n')
        sys.stderr.write('check %s: worker(s) %r failed\n'
                         % (prop_id, crashed))
        status = 2
    elif agg['runs'] < min(floor, total):
        sys.stderr.write('check %s: only %d runs in %d s\n'
                         % (prop_id, agg['runs'], budget))
        status = 2
    for name in sorted(set(k['id'] for k, _ in known)):
        k = [x for x, _ in known if x['id'] == name][0]
        print('KNOWN-FINDING: property=%s %s' % (prop_id, k['what']))
    listed = [k for k in findings.listed(prop_id)
              if k['id'] not in set(x['id'] for x, _ in known)]
    for k in listed:
        print('KNOWN-FINDING: property=%s %s (not met in this run)'
              % (prop_id, k['what']))
    hours = max(wall, 1e-9) / 3600.
    ev = {
        'property': prop_id, 'tier': tier, 'seed': seed,
        'level': m['level'],
        'coverage': {
            'evaluations': agg['runs'],
            'distinct_nontrivial': len(hashes),
            'rule': m['rule'],
            'samples': samples[:3] or ['no run completed'],
            'runs_planned': total,
            'runs_skipped_by_wall_cap': agg['skipped'],
            'nontrivial_runs': agg['nontrivial'],
            'runs_per_hour': int(agg['runs'] / hours),
            'seeds_per_hour': int(agg['runs'] / hours),
            'steps': agg['steps'],
            'task_switches': agg['switches'],
            'simulated_seconds': round(agg['sim_s'], 1),
            'faults_fired': fired,
            'rare_conditions': probes,
            'schedule_policies': policies,
            'distinct_measure': m['distinct'],
            'real_components': m['real'],
            'stub_components': m['stub'],
            'workers': workers,
            'known_finding_hits': len(known),
        },
        'assumptions': m['assumptions'],
        'wall_s': round(REAL_TIME() - t0, 2),
        'violations': len(bad),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop_id + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if status == 0:
        print('%s held: %d runs, %d distinct, %.0f simulated s, %.0f s wall'
              % (prop_id, agg['runs'], len(hashes), agg['sim_s'],
                 REAL_TIME() - t0))
    return status
