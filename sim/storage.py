"""Engine of the storage simulations: one process, one disk, one clock."""
from . import env
env.setup()

import datetime as _dt
import gc
import os
import random
import zlib

import numpy as np
import tensorflow as tf

from . import disk as D
from . import mp
from . import store
from . import storage_models as SM
from .pipeline import Violation, fail

D.install()


def memoise_yaml():
    """Parsing dominates the run time and is a pure function of the text."""
    import pickle
    import ruamel.yaml
    import ruamel.yaml.main
    real = ruamel.yaml.main.load
    table = {}

    def load(stream, Loader=None, *args, **kwargs):
        if any(v is not None for v in args + tuple(kwargs.values())):
            return real(stream, Loader, *args, **kwargs)
        text = stream.read() if hasattr(stream, 'read') else stream
        key = (text, Loader)
        if key in table:
            return pickle.loads(table[key])
        value = real(text, Loader)
        if len(table) > 5000:
            table.clear()
        try:
            table[key] = pickle.dumps(value)
        except Exception:
            pass
        return value

    def safe_load(stream, version=None):
        return load(stream, ruamel.yaml.SafeLoader, version)

    for module in (ruamel.yaml, ruamel.yaml.main):
        module.load = load
        module.safe_load = safe_load


memoise_yaml()


# the first checkpoint object of a process reads the clock once more
tf.train.Checkpoint(v=tf.Variable(0))


class SimDatetime(_dt.datetime):

    @classmethod
    def now(cls, tz=None):
        c = mp.CLOCK[0]
        if c is None:
            return _dt.datetime.now(tz)
        return cls.fromtimestamp(c('datetime'), tz or _dt.timezone.utc
                                 ).replace(tzinfo=tz)

    @classmethod
    def utcnow(cls):
        return cls.now()


def seam_datetime():
    for m in env.egenerator_modules('egenerator'):
        if getattr(m, 'datetime', None) is _dt.datetime:
            m.datetime = SimDatetime


class Clock(object):
    """Wall clock of the simulated machine; jumps on request."""

    def __init__(self):
        self.t = 1.6e9
        self.total = 0.

    def __call__(self, name):
        self.t += 0.25
        self.total += 0.25
        return self.t

    def jump(self, dt):
        self.t = max(1., self.t + dt)
        self.total += max(0., dt)


class Result(object):
    pass


def run(plan, body, keep_log=False):
    """Execute body(ctx) on a fresh simulated disk."""
    seam_datetime()
    res = Result()
    res.violation = None
    gc_was = gc.isenabled()
    gc.disable()
    with store.Scratch() as sc:
        root = os.path.join(sc.path, 'disk')
        os.mkdir(root)
        store.ORDER[0] = plan.get('order', 0)
        np.random.seed(plan.get('np_seed', 0) % 2 ** 32)
        random.seed(plan.get('np_seed', 0))
        d = D.Disk(root, plan.get('bufsize', 512), keep_log)
        clock = Clock()
        mp.CLOCK[0] = clock
        SM.SALT[0] = 0
        cwd = os.getcwd()
        ctx = Ctx(plan, d, clock)
        try:
            with D.on(d):
                try:
                    body(ctx)
                except Violation as e:
                    res.violation = (e.kind, e.info.replace(root, ''))
                except Exception as e:
                    if not in_repo(e):
                        raise
                    res.violation = ('error', describe(e).replace(root, ''))
        finally:
            mp.CLOCK[0] = None
            os.chdir(cwd)
            ctx.close()
    if gc_was:
        gc.enable()
    res.steps = d.total
    res.hash = d.hash
    res.sim_s = clock.total
    res.deviations = []
    res.fired = d.fired
    res.probes = ctx.probes
    res.switches = ctx.restarts
    res.log = d.log
    res.worker_errors = []
    res.api_calls = ctx.calls
    return res


class Ctx(object):

    def __init__(self, plan, d, clock):
        self.plan = plan
        self.disk = d
        self.clock = clock
        self.probes = {}
        self.restarts = 0
        self.calls = 0
        self.tags = 0
        self.memory = {}        # objects of the living process

    def close(self):
        self.memory.clear()

    def tag(self):
        self.tags += 1
        return self.tags * 10 + 3

    def path(self, name):
        return os.path.join(self.disk.root, name)

    def probe(self, name):
        self.probes[name] = self.probes.get(name, 0) + 1

    def restart(self):
        """The process is gone; only the disk survives."""
        self.memory.clear()
        self.disk.restart()
        self.restarts += 1
        self.disk.note('restart')

    def quietly(self, fn, *a, **k):
        """Reads that are part of the observation, not of the run."""
        with D.paused():
            return fn(*a, **k)

    def attempt(self, what, fn, fault=None):
        """One API call under a fault.

        Returns ('ok', value), ('error', exc), ('crash', None), or
        ('done-died', value) if the process died right after the call.
        """
        d = self.disk
        self.calls += 1
        d.note('call %s' % what)
        d.call(fault)
        try:
            value = fn()
        except D.SimCrash:
            d.armed = None
            d.note('died')
            return 'crash', None
        except Violation:
            raise
        except Exception as e:
            hit = d.hit
            crashed = d.dead
            d.armed = None
            d.sticky = None
            if crashed:
                # raised by clean-up code of a process that is already dead
                d.note('died')
                return 'crash', None
            d.note('raised %s' % type(e).__name__)
            if not hit and fault is not None and fault['type'] == 'crash':
                # the process dies after having reported the error
                d.dead = True
                d.note('died')
                return 'crash', None
            return 'error', e
        if d.dead:
            d.note('died')
            return 'crash', None
        if d.end_call():
            d.note('died')
            return 'done-died', value
        d.note('done')
        return 'ok', value


def gen_fault(rng, span, p_crash=.6):
    """A crash or an I/O error at some operation of an API call."""
    k = int(rng.random() * rng.choice(span))
    if rng.random() < p_crash:
        return {'type': 'crash', 'op': k,
                'mode': rng.choice(['lost', 'lost', 'torn', 'late'])}
    f = {'type': 'error', 'op': k, 'errno': rng.choice(['EIO', 'ENOSPC',
                                                        'ENOSPC'])}
    if rng.random() < .5:
        f['partial'] = True
    if rng.random() < .3:
        f['sticky'] = True
    return f


def in_repo(exc):
    """Does the exception come out of the code under test?"""
    tb = exc.__traceback__
    root = os.path.join(os.path.realpath(env.REPO), 'egenerator')
    while tb is not None:
        f = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if f.startswith(root):
            return True
        tb = tb.tb_next
    return False


def describe(exc):
    return '%s: %s' % (type(exc).__name__, str(exc)[:300])
