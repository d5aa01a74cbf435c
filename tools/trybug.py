"""Applies each seeded bug to /repo in turn, runs the quick check of its
property and undoes the change.   usage: trybug.py [ID...]"""
import json, os, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(os.path.join(ROOT, 'seeded')))
for b in ids:
    d = os.path.join(ROOT, 'seeded', b)
    prop = json.load(open(d + '/meta.json'))['property']
    if not any(c['property'] == prop for c in json.load(
            open(ROOT + '/MANIFEST.json'))['checks']):
        print(b, prop, 'NO CHECK', flush=True)
        continue
    assert not subprocess.run(['git', '-C', '/repo', 'status', '--porcelain'],
                              stdout=subprocess.PIPE).stdout
    t = time.time()
    try:
        subprocess.run(['git', '-C', '/repo', 'apply', d + '/patch.diff'],
                       check=True)
        p = subprocess.run([ROOT + '/run', 'check', prop, '--tier', 'quick'],
                           cwd=ROOT, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True,
                           env=dict(os.environ, VERIF_SEED='1',
                                    VERIF_TIER='quick'))
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '--', '.'])
    v = [x for x in p.stdout.splitlines() if x.startswith('VIOLATION')]
    print(b, prop, 'caught' if p.returncode == 1 and v else
          'MISSED (rc %d)' % p.returncode, '%.0f s' % (time.time() - t),
          [x for x in p.stdout.splitlines() if 'kind' in x or prop in x][-2:],
          flush=True)
