"""Process-wide set-up shared by every simulation: import this first."""
import os
import sys
import warnings

os.environ.setdefault('CUDA_VISIBLE_DEVICES', '-1')
os.environ.setdefault('TF_CPP_MIN_LOG_LEVEL', '3')
os.environ.setdefault('TF_ENABLE_ONEDNN_OPTS', '0')
os.environ.setdefault('MPLBACKEND', 'Agg')
os.environ.setdefault('TF_NUM_INTEROP_THREADS', '1')
os.environ.setdefault('TF_NUM_INTRAOP_THREADS', '1')
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('GIT_OPTIONAL_LOCKS', '0')
sys.dont_write_bytecode = True
warnings.simplefilter('ignore')

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('SIM_REPO', '/repo')
STUBS = os.path.join(HERE, 'stubs')
if STUBS not in sys.path:
    sys.path.insert(0, STUBS)
if sys.path[0:1] != [REPO]:
    sys.path.insert(0, REPO)

_done = []


def setup():
    """Install the seams and import egenerator from the repository."""
    if _done:
        return
    _done.append(1)
    import logging
    logging.disable(logging.CRITICAL)
    import timeit
    from . import mp
    mp.install()
    import time
    timeit.default_timer = lambda: time.perf_counter()
    import egenerator
    root = os.path.realpath(os.path.dirname(egenerator.__file__))
    if root != os.path.realpath(os.path.join(REPO, 'egenerator')):
        raise RuntimeError('egenerator comes from %s, not from %s'
                           % (root, REPO))
    # provenance look-ups run git on the real repository for every component:
    # slow and an outside influence; answered by a constant here
    from egenerator.settings import version_control
    version_control.get_git_infos = lambda *a, **k: (
        'abcdef1', 'abcdef1' * 6, 'origin', False)


def egenerator_modules(prefix):
    return [m for n, m in sorted(sys.modules.items())
            if n.startswith(prefix) and m is not None]
