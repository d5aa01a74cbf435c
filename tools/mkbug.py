"""Builds /verif/seeded/<id>/ from tools/bugs/<id>.py and confirms it.

A bug file defines PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new), ...]
and DEMO (source of demo.py, may use demolib).  The change is applied to a
scratch copy of /repo; the demonstration must pass without and fail with it,
and the stable tests must pass with it.

usage: mkbug.py ID... [--fast] (no stable tests) | --all
"""
import json
import os
import runpy
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
WORK = '/tmp/egbug'
REPO = os.environ.get('MKBUG_REPO', '/repo')
DEMO_SH = '''#!/bin/bash
# run with cwd = the repository, after its build
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 CUDA_VISIBLE_DEVICES=-1 TF_CPP_MIN_LOG_LEVEL=3
export PYTHONPATH="$PWD:$here"
exec /opt/venv/bin/python -W ignore "$here/demo.py"
'''
IGNORE = ['--ignore=test/' + x for x in (
    'data/handler', 'data/modules', 'data/test_trafo.py', 'manager', 'model',
    'test_create_trafo_model.py')]


def sh(cmd, cwd, timeout=300, **env):
    e = dict(os.environ, PYTHONPATH=cwd, PYTHONDONTWRITEBYTECODE='1', **env)
    p = subprocess.run(cmd, cwd=cwd, env=e, timeout=timeout,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True)
    return p.returncode, p.stdout


def make(bug, fast):
    spec = runpy.run_path(os.path.join(ROOT, 'tools/bugs', bug + '.py'))
    out = os.path.join(ROOT, 'seeded', bug)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    shutil.rmtree(WORK, ignore_errors=True)
    shutil.copytree(REPO, WORK, symlinks=True)
    subprocess.run(['git', 'checkout', '-q', '--', '.'], cwd=WORK, check=True)
    for f in ('demolib.py',) + (
            tuple(x + '.py' for x in ('demotray', 'demohdf', 'demodeploy',
                                       'demoexport')
                  if x in spec['DEMO'])):
        shutil.copy(os.path.join(ROOT, 'tools', f), out)
    shutil.copy(os.path.join(ROOT, 'sim/stubs/getclass.py'), out)
    open(os.path.join(out, 'demo.py'), 'w').write(
        spec['DEMO'].lstrip('\n'))
    open(os.path.join(out, 'demo.sh'), 'w').write(DEMO_SH)
    os.chmod(os.path.join(out, 'demo.sh'), 0o755)
    json.dump({'property': spec['PROPERTY'],
               'needs': ' '.join(spec['NEEDS'].split()),
               'what_it_breaks': ' '.join(spec['BREAKS'].split())},
              open(os.path.join(out, 'meta.json'), 'w'), indent=1)
    try:
        rc, txt = sh(['bash', os.path.join(out, 'demo.sh')], WORK)
        if rc:
            return 'demo fails on the clean tree:\n' + txt[-1500:]
        for f, old, new in spec['EDITS']:
            p = os.path.join(WORK, f)
            s = open(p).read()
            if s.count(old) != 1:
                return 'edit of %s matches %d times: %.60r' % (
                    f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        d = subprocess.run(['git', 'diff'], cwd=WORK, stdout=subprocess.PIPE)
        open(os.path.join(out, 'patch.diff'), 'wb').write(d.stdout)
        rc, txt = sh(['bash', os.path.join(out, 'demo.sh')], WORK)
        if rc == 0:
            return 'demo passes with the bug:\n' + txt[-500:]
        tail = txt.strip().splitlines()[-1][:150]
        if not fast:
            rc, txt = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider',
                          'test'] + IGNORE, WORK)
            if rc or '21 passed' not in txt:
                return 'stable tests: ' + txt[-500:]
        # every changed line has to be one of the original repository
        for line in mine(bug, WORK, spec):
            print('   note: touches a line of a fix: ' + line)
        return 'ok (%s)' % tail
    finally:
        shutil.rmtree(WORK, ignore_errors=True)


def mine(bug, work, spec):
    """Removed lines that commits after the base one had added."""
    out = []
    base = subprocess.run(['git', 'rev-list', '--max-parents=0', 'HEAD'],
                          cwd=REPO, stdout=subprocess.PIPE,
                          text=True).stdout.split()[0]
    for f in {e[0] for e in spec['EDITS']}:
        orig = subprocess.run(['git', 'show', base + ':' + f], cwd=REPO,
                              stdout=subprocess.PIPE, text=True).stdout
        orig = {x.strip() for x in orig.splitlines()}
        d = subprocess.run(['git', 'diff', '-U0', f], cwd=work,
                           stdout=subprocess.PIPE, text=True).stdout
        for x in d.splitlines():
            if x.startswith('-') and not x.startswith('---') and \
                    x[1:].strip() not in orig:
                out.append(x)
    return out


if __name__ == '__main__':
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    if '--all' in sys.argv:
        args = sorted(x[:-3] for x in os.listdir(
            os.path.join(ROOT, 'tools/bugs')) if x.endswith('.py'))
    for b in args:
        print(b, make(b, '--fast' in sys.argv), flush=True)
