"""Command line: check, replay, worker, minimise, one, selftest."""
import argparse
import json
import os
import sys


def main(argv):
    cmd = argv[0]
    if cmd == 'worker':
        from . import runner
        runner.worker(argv[1], int(argv[2]), argv[3], int(argv[4]),
                      int(argv[5]), int(argv[6]), float(argv[7]))
        sys.stdout.flush()
        os._exit(0)
    if cmd == 'minimise':
        from . import runner
        runner.minimise_main(argv[1])
        os._exit(0)
    if cmd == 'replay':
        from . import runner
        rc = runner.replay_main(argv[1])
        sys.stdout.flush()
        os._exit(rc)
    if cmd == 'one':
        # one <prop> <index> [seed]: run a single seed and print it
        from . import runner, env
        env.setup()
        prop = runner.load(argv[1])
        seed = int(argv[3]) if len(argv) > 3 else int(
            os.environ.get('VERIF_SEED', '1'))
        plan = prop.plan(runner.rng_for(argv[1], seed, int(argv[2])),
                         'quick')
        res = prop.run(plan, True)
        if os.environ.get('SIM_VERBOSE'):
            print('\n'.join(map(str, res.log or [])))
        print(json.dumps(prop.sample(plan, res), indent=1, default=str))
        print('violation:', res.violation)
        sys.stdout.flush()
        os._exit(0)
    if cmd == 'hunt':
        # hunt <prop> <n> [seed]: tally the kinds of violations
        from . import runner, env
        env.setup()
        prop = runner.load(argv[1])
        seed = int(argv[3]) if len(argv) > 3 else 1
        from . import mp
        t0 = mp.REAL['time.time']()
        kinds = {}
        fired = {}
        probes = {}
        nt = 0
        for i in range(int(argv[2])):
            plan = prop.plan(runner.rng_for(argv[1], seed, i), 'quick')
            plan['seed'] = [seed, i]
            res = prop.run(plan)
            nt += bool(prop.nontrivial(plan, res))
            for tab, src in ((fired, res.fired), (probes, res.probes)):
                for k, v in src.items():
                    tab[k] = tab.get(k, 0) + v
            if res.violation is not None:
                k = kinds.setdefault(res.violation[0], [])
                k.append((i, res.violation[1]))
        for k, v in sorted(kinds.items()):
            print('%s: %d, e.g.' % (k, len(v)))
            for i, t in v[:6]:
                print('   %d: %s' % (i, t[:300]))
        print('nontrivial', nt, 'fired', fired, 'probes', probes)
        print('%.1f s' % (mp.REAL['time.time']() - t0))
        sys.stdout.flush()
        os._exit(0)
    if cmd == 'check':
        ap = argparse.ArgumentParser()
        ap.add_argument('property')
        ap.add_argument('--tier', default=os.environ.get(
            'VERIF_TIER', 'quick'))
        a = ap.parse_args(argv[1:])
        seed = int(os.environ.get('VERIF_SEED', '1'))
        from . import runner
        print('property %s, VERIF_SEED=%d, tier %s' % (
            a.property, seed, a.tier))
        sys.stdout.flush()
        sys.exit(runner.check(a.property, a.tier, seed))
    if cmd == 'setup':
        from . import env
        env.setup()
        print('egenerator imports from', env.REPO)
        return
    if cmd == 'selftest':
        from . import selftest
        sys.exit(selftest.main(argv[1:]))
    sys.exit('unknown command %r' % cmd)


if __name__ == '__main__':
    main(sys.argv[1:])
