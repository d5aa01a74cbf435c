"""Determinism: the same seed must give the same trace, in another process,
in another order, under another PYTHONHASHSEED.

usage: run selftest [P01 P02 ...] [--n 200]
"""
import json
import os
import subprocess
import sys


def child(prop_id, lo, hi, step, out):
    from . import env
    env.setup()
    from . import runner
    prop = runner.load(prop_id)
    import gc
    gc.collect()
    gc.freeze()
    res = {}
    order = list(range(lo, hi))
    if step < 0:
        order.reverse()
    for i in order:
        plan = prop.plan(runner.rng_for(prop_id, 77, i), 'quick')
        plan['seed'] = [77, i]
        plan['property'] = prop_id
        text = json.dumps(plan, sort_keys=True)
        r = prop.run(json.loads(text))
        res[i] = [len(text), '%08x' % r.hash, r.steps, repr(r.sim_s),
                  str(r.violation), sorted(r.fired.items()),
                  sorted(r.probes.items())]
    with open(out, 'w') as f:
        json.dump(res, f)


def main(argv):
    if argv and argv[0] == '--child':
        child(argv[1], int(argv[2]), int(argv[3]), int(argv[4]), argv[5])
        sys.stdout.flush()
        os._exit(0)
    n = 200
    if '--n' in argv:
        k = argv.index('--n')
        n = int(argv[k + 1])
        del argv[k:k + 2]
    from . import meta, runner
    import tempfile
    bad = 0
    for p in argv or sorted(meta.META):
        with tempfile.TemporaryDirectory() as d:
            jobs = []
            # one process; four processes; reversed order, other hash seeds
            parts = [(0, n, 1, '0')] + \
                [(a * n // 4, (a + 1) * n // 4, 1, '12345')
                 for a in range(4)] + \
                [(a * n // 2, (a + 1) * n // 2, -1, '999') for a in range(2)]
            for j, (lo, hi, step, hs) in enumerate(parts):
                e = dict(os.environ, PYTHONPATH=runner.VERIF,
                         PYTHONHASHSEED=hs)
                out = os.path.join(d, '%d.json' % j)
                jobs.append((subprocess.Popen(
                    [sys.executable, '-m', 'sim.cli', 'selftest', '--child',
                     p, str(lo), str(hi), str(step), out],
                    cwd=runner.VERIF, env=e), out))
            tables = []
            for proc, out in jobs:
                if proc.wait() != 0:
                    print(p, 'child failed')
                    bad += 1
                    continue
                with open(out) as f:
                    tables.append(json.load(f))
            ref = tables[0]
            diff = set()
            for t in tables[1:]:
                for i in t:
                    if t[i] != ref[i]:
                        diff.add(int(i))
                        if len(diff) < 3:
                            print('  differs', i, ref[i], t[i])
            print('%s: %d seeds x 3 executions, %d differ' % (
                p, n, len(diff)))
            sys.stdout.flush()
            bad += len(diff)
    return 1 if bad else 0
