"""Simulated `multiprocessing`, `time` and process-level seams.

`install()` replaces attributes of the real modules once, before egenerator is
imported.  While no simulation is active every replacement forwards to the
real thing.
"""
import copy
import ctypes
import gc
import io
import multiprocessing
import os
import pickle
import queue as _queue
import sys
import time
import types
import weakref
from collections import deque

from . import kernel as K

REAL = {}


def _k():
    k = K.active()
    if k is None:
        raise K.HarnessError('simulated primitive used outside a simulation')
    return k


def _gone():
    """True if effects of the calling task must be suppressed."""
    k = K.ACTIVE
    if k is None:
        return True
    t = k.this_task()
    return t.killed or (k.closed and t is not k.main)


class Shared(object):
    """Base of objects living outside the memory of any one process."""

    def __init__(self, label):
        self.kern = _k()
        self.oid = self.kern.new_id()
        self.label = '%s%d' % (label, self.oid)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def point(self, what, pred=None, timeout=None):
        k = self.kern
        if k.closed and k.this_task() is k.main:
            raise K.HarnessError('%s used after the simulation' % self.label)
        return k.point('%s %s' % (what, self.label), pred, timeout)

    def __reduce__(self):
        raise TypeError('%s objects should only be shared between processes '
                        'through inheritance' % type(self).__name__)


# ---------------------------------------------------------------- values ---
_CTYPES = {'c': ctypes.c_char, 'b': ctypes.c_byte, 'B': ctypes.c_ubyte,
           'h': ctypes.c_short, 'H': ctypes.c_ushort, 'i': ctypes.c_int,
           'I': ctypes.c_uint, 'l': ctypes.c_long, 'L': ctypes.c_ulong,
           'q': ctypes.c_longlong, 'Q': ctypes.c_ulonglong,
           'f': ctypes.c_float, 'd': ctypes.c_double}


class SimValue(Shared):

    def __init__(self, typecode, *args, lock=True):
        Shared.__init__(self, 'value')
        ct = _CTYPES.get(typecode, typecode)
        self._cell = ct(*args)
        if lock is True or lock is None:
            lock = SimLock(recursive=True)
        self._lock = lock if lock else None

    @property
    def value(self):
        self.point('read')
        return self._cell.value

    @value.setter
    def value(self, v):
        self.point('write')
        if self._cell.value != v:
            self.kern.progress()
        self._cell.value = v

    def get_lock(self):
        return self._lock

    def get_obj(self):
        return self._cell

    def acquire(self, *a, **kw):
        return self._lock.acquire(*a, **kw)

    def release(self):
        return self._lock.release()

    def __enter__(self):
        return self._lock.__enter__()

    def __exit__(self, *a):
        return self._lock.__exit__(*a)

    # manager style access
    def get(self):
        return self.value

    def set(self, v):
        self.value = v


class SimArray(Shared):

    def __init__(self, typecode, init, lock=True):
        Shared.__init__(self, 'array')
        ct = _CTYPES.get(typecode, typecode)
        if isinstance(init, int):
            self._arr = (ct * init)()
        else:
            init = list(init)
            self._arr = (ct * len(init))(*init)
        self._lock = SimLock(recursive=True)

    def __len__(self):
        return len(self._arr)

    def __getitem__(self, i):
        self.point('read')
        return self._arr[i]

    def __setitem__(self, i, v):
        self.point('write')
        self.kern.progress()
        self._arr[i] = v

    def __iter__(self):
        self.point('read')
        return iter(list(self._arr))

    def get_lock(self):
        return self._lock


# ----------------------------------------------------------------- locks ---
class SimLock(Shared):

    def __init__(self, recursive=False):
        Shared.__init__(self, 'rlock' if recursive else 'lock')
        self.recursive = recursive
        self.owner = None
        self.depth = 0

    def _free(self):
        return self.owner is None or (
            self.recursive and self.owner == self._want)

    def acquire(self, block=True, timeout=None):
        me = self.kern.this_task().tid

        def free():
            return self.owner is None or (self.recursive and self.owner == me)
        if not block:
            self.point('try-acquire')
            if not free():
                return False
        else:
            if self.owner is not None and not free():
                self.kern.probe('lock contended')
            if not self.point('acquire', free, timeout):
                return False
        self.owner = me
        self.depth += 1
        return True

    def release(self):
        if _gone():
            raise K.SimKilled()
        if self.owner is None:
            raise ValueError('semaphore or lock released too many times')
        self.depth -= 1
        if self.depth == 0:
            self.owner = None
        self.point('release')

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        if _gone():
            return
        self.release()

    def locked(self):
        return self.owner is not None


class SimSemaphore(Shared):

    def __init__(self, value=1, bounded=False):
        Shared.__init__(self, 'sem')
        self.n = value
        self.max = value if bounded else None

    def acquire(self, block=True, timeout=None):
        if not block:
            self.point('try-acquire')
            if self.n <= 0:
                return False
        elif not self.point('acquire', lambda: self.n > 0, timeout):
            return False
        self.n -= 1
        return True

    def release(self):
        if _gone():
            raise K.SimKilled()
        if self.max is not None and self.n >= self.max:
            raise ValueError('semaphore or lock released too many times')
        self.n += 1
        self.point('release')

    def get_value(self):
        self.point('read')
        return self.n

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        if not _gone():
            self.release()


class SimEvent(Shared):

    def __init__(self):
        Shared.__init__(self, 'event')
        self.flag = False

    def is_set(self):
        self.point('read')
        return self.flag

    def set(self):
        self.point('set')
        if not self.flag:
            self.kern.progress()
        self.flag = True

    def clear(self):
        self.point('clear')
        self.flag = False

    def wait(self, timeout=None):
        return self.point('wait', lambda: self.flag, timeout)


class SimCondition(Shared):

    def __init__(self, lock=None):
        Shared.__init__(self, 'cond')
        self.lock = lock or SimLock(recursive=True)
        self.waiters = []

    def acquire(self, *a, **k):
        return self.lock.acquire(*a, **k)

    def release(self):
        return self.lock.release()

    def __enter__(self):
        return self.lock.__enter__()

    def __exit__(self, *a):
        return self.lock.__exit__(*a)

    def wait(self, timeout=None):
        token = [False]
        self.waiters.append(token)
        depth, owner = self.lock.depth, self.lock.owner
        self.lock.depth, self.lock.owner = 0, None
        got = self.point('wait', lambda: token[0], timeout)
        if token in self.waiters:
            self.waiters.remove(token)
        self.point('reacquire', lambda: self.lock.owner is None)
        self.lock.depth, self.lock.owner = depth, owner
        return got

    def wait_for(self, predicate, timeout=None):
        end = None if timeout is None else self.kern.now / 1e6 + timeout
        while not predicate():
            left = None if end is None else end - self.kern.now / 1e6
            if left is not None and left <= 0:
                return False
            self.wait(left)
        return True

    def notify(self, n=1):
        self.point('notify')
        for token in self.waiters[:n]:
            token[0] = True
        del self.waiters[:n]

    def notify_all(self):
        self.notify(len(self.waiters))


class SimBarrier(Shared):

    def __init__(self, parties, action=None, timeout=None):
        Shared.__init__(self, 'barrier')
        self.parties = parties
        self.count = 0
        self.gen = 0

    def wait(self, timeout=None):
        gen = self.gen
        i = self.count
        self.count += 1
        if self.count == self.parties:
            self.count = 0
            self.gen += 1
            self.point('barrier')
            return i
        self.point('barrier', lambda: self.gen != gen, timeout)
        return i


# ---------------------------------------------------------------- queues ---
class _QueueState(Shared):
    """The queue as it exists in the server process or pipe."""

    def __init__(self, maxsize):
        Shared.__init__(self, 'queue')
        self.maxsize = maxsize
        self.items = deque()
        self.alive = True
        self.peak = 0
        self.puts = 0
        self.kern.keep.append(self)
        if not hasattr(self.kern, 'queues'):
            self.kern.queues = []
        self.kern.queues.append(self)

    def check(self):
        if not self.alive:
            raise EOFError('the manager of this queue has been shut down')


class SimQueue(object):
    """A handle of a queue; `manager` keeps the server alive."""

    def __init__(self, state, manager=None):
        self._state = state
        self._manager = manager

    def __copy__(self):
        return SimQueue(self._state)

    def __deepcopy__(self, memo):
        # the copy in a forked process does not keep the server alive
        return SimQueue(self._state)

    def __reduce__(self):
        raise TypeError('queue handles are inherited, not pickled')

    def put(self, item, block=True, timeout=None):
        s = self._state
        s.check()
        data = pickle.dumps(item, protocol=pickle.HIGHEST_PROTOCOL)
        if not block:
            timeout = 0

        def room():
            return s.maxsize <= 0 or len(s.items) < s.maxsize or not s.alive
        if not room():
            s.kern.probe('put on a full queue')
        if not s.point('put', room, timeout):
            raise _queue.Full
        s.check()
        s.items.append(data)
        s.puts += 1
        s.peak = max(s.peak, len(s.items))
        s.kern.progress()

    def get(self, block=True, timeout=None):
        s = self._state
        s.check()
        if not block:
            timeout = 0
        if not s.items:
            s.kern.probe('get on an empty queue')
        if not s.point('get', lambda: bool(s.items) or not s.alive, timeout):
            raise _queue.Empty
        s.check()
        data = s.items.popleft()
        s.kern.progress()
        return pickle.loads(data)

    def put_nowait(self, item):
        return self.put(item, False)

    def get_nowait(self):
        return self.get(False)

    def qsize(self):
        self._state.check()
        self._state.point('qsize')
        return len(self._state.items)

    def empty(self):
        self._state.check()
        self._state.point('empty')
        return not self._state.items

    def full(self):
        s = self._state
        s.check()
        s.point('full')
        return s.maxsize > 0 and len(s.items) >= s.maxsize

    def close(self):
        pass

    def join_thread(self):
        pass

    def cancel_join_thread(self):
        pass

    def task_done(self):
        s = self._state
        s.point('task_done')
        s.done = getattr(s, 'done', 0) + 1

    def join(self):
        s = self._state
        s.point('join', lambda: getattr(s, 'done', 0) >= s.puts)


# --------------------------------------------------------------- manager ---
class SimManager(object):
    """Server process holding shared objects.

    As with the real one, the server goes away when the last reference to the
    manager or to one of its proxies in the creating process is dropped.
    """

    def __init__(self):
        self._served = []
        self._final = weakref.finalize(self, SimManager._shutdown,
                                       self._served)
        self._final.atexit = False

    def __deepcopy__(self, memo):
        return self

    @staticmethod
    def _shutdown(served):
        k = K.ACTIVE
        if k is None or k.closed:
            return
        for s in served:
            if s.kern is k and s.alive:
                s.alive = False
                k.probe('manager shut down')

    def shutdown(self):
        self._final()

    def start(self, *a, **k):
        return self

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.shutdown()

    def Queue(self, maxsize=0):
        s = _QueueState(maxsize)
        self._served.append(s)
        return SimQueue(s, self)

    JoinableQueue = Queue

    def Lock(self):
        return SimLock()

    def RLock(self):
        return SimLock(recursive=True)

    def Event(self):
        return SimEvent()

    def Semaphore(self, value=1):
        return SimSemaphore(value)

    def BoundedSemaphore(self, value=1):
        return SimSemaphore(value, True)

    def Condition(self, lock=None):
        return SimCondition(lock)

    def Barrier(self, *a, **k):
        return SimBarrier(*a, **k)

    def Value(self, typecode, value, lock=True):
        return SimManagerValue(value)

    def Array(self, typecode, seq, lock=True):
        return SimArray(typecode, seq)

    def list(self, seq=()):
        return SimList(seq)

    def dict(self, *a, **k):
        return SimDict(*a, **k)

    def Namespace(self, **kw):
        return SimNamespace(**kw)


class SimManagerValue(Shared):

    def __init__(self, value):
        Shared.__init__(self, 'mvalue')
        self._v = value

    @property
    def value(self):
        self.point('read')
        return self._v

    @value.setter
    def value(self, v):
        self.point('write')
        if self._v != v:
            self.kern.progress()
        self._v = v

    def get(self):
        return self.value

    def set(self, v):
        self.value = v


def _forward(name, write):
    def method(self, *a, **k):
        self.point('write' if write else 'read')
        if write:
            self.kern.progress()
        r = getattr(self._obj, name)(*pickle.loads(pickle.dumps(a)), **k)
        if isinstance(r, (type({}.keys()), type({}.values()),
                          type({}.items()))):
            r = list(r)
        return pickle.loads(pickle.dumps(r)) if not hasattr(
            r, '__next__') else r
    method.__name__ = name
    return method


class SimList(Shared):
    def __init__(self, seq=()):
        Shared.__init__(self, 'list')
        self._obj = list(seq)


for _n in ('append', 'extend', 'insert', 'pop', 'remove', 'reverse', 'sort',
           '__setitem__', '__delitem__', 'clear', '__iadd__'):
    setattr(SimList, _n, _forward(_n, True))
for _n in ('__getitem__', '__len__', '__contains__', 'count', 'index'):
    setattr(SimList, _n, _forward(_n, False))
SimList.__iter__ = lambda self: iter(self[:])


class SimDict(Shared):
    def __init__(self, *a, **k):
        Shared.__init__(self, 'dict')
        self._obj = dict(*a, **k)


for _n in ('__setitem__', '__delitem__', 'clear', 'pop', 'popitem',
           'setdefault', 'update'):
    setattr(SimDict, _n, _forward(_n, True))
for _n in ('__getitem__', '__len__', '__contains__', 'get', 'keys', 'values',
           'items', 'copy'):
    setattr(SimDict, _n, _forward(_n, False))
SimDict.__iter__ = lambda self: iter(self.keys())


class SimNamespace(Shared):
    def __init__(self, **kw):
        Shared.__init__(self, 'namespace')
        self.__dict__['_obj'] = dict(kw)

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        self.point('read')
        try:
            return self.__dict__['_obj'][name]
        except KeyError:
            raise AttributeError(name)

    def __setattr__(self, name, value):
        if name in ('kern', 'oid', 'label'):
            self.__dict__[name] = value
            return
        self.point('write')
        self.kern.progress()
        self.__dict__['_obj'][name] = value


# --------------------------------------------------------------- process ---
def clone(obj, memo, depth=0):
    """The copy of an object that a forked process gets."""
    if isinstance(obj, types.FunctionType):
        if id(obj) in memo:
            return memo[id(obj)]
        if obj.__closure__ is None:
            return obj
        cells = []
        fn = types.FunctionType(obj.__code__, obj.__globals__, obj.__name__,
                                obj.__defaults__,
                                tuple(types.CellType()
                                      for _ in obj.__closure__))
        fn.__kwdefaults__ = obj.__kwdefaults__
        memo[id(obj)] = fn
        for old, new in zip(obj.__closure__, fn.__closure__):
            key = ('cell', id(old))
            try:
                content = old.cell_contents
            except ValueError:
                continue
            new.cell_contents = clone(content, memo, depth + 1)
        return fn
    if isinstance(obj, types.MethodType):
        return types.MethodType(obj.__func__,
                                clone(obj.__self__, memo, depth + 1))
    if isinstance(obj, types.ModuleType) or isinstance(obj, type):
        return obj
    if isinstance(obj, types.GeneratorType):
        return obj
    import functools
    if isinstance(obj, functools.partial):
        return functools.partial(
            clone(obj.func, memo), *[clone(a, memo) for a in obj.args],
            **{k: clone(v, memo) for k, v in obj.keywords.items()})
    if isinstance(obj, tuple) and type(obj) is tuple:
        return tuple(clone(o, memo, depth + 1) for o in obj)
    if isinstance(obj, list) and type(obj) is list:
        if id(obj) in memo:
            return memo[id(obj)]
        new = []
        memo[id(obj)] = new
        memo.setdefault('keep', []).append(obj)
        new.extend(clone(o, memo, depth + 1) for o in obj)
        return new
    if isinstance(obj, dict) and type(obj) is dict:
        if id(obj) in memo:
            return memo[id(obj)]
        new = {}
        memo[id(obj)] = new
        for a, b in obj.items():
            new[clone(a, memo, depth + 1)] = clone(b, memo, depth + 1)
        return new
    return copy.deepcopy(obj, memo)


class SimProcess(object):

    _real_api = True

    def __init__(self, group=None, target=None, name=None, args=(),
                 kwargs={}, *, daemon=None):
        self._kern = _k()
        self._target = target
        self._args = tuple(args)
        self._kwargs = dict(kwargs)
        self._task = None
        n = len(self._kern.tasks)
        self._name = name or 'Process-%d' % n
        self._daemon = bool(daemon)
        self._parent = self._kern.this_task().tid

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self):
        k = self._kern
        if self._task is not None:
            raise AssertionError('cannot start a process twice')
        label = getattr(self._target, '__name__', None) or type(self).__name__
        k.starts = getattr(k, 'starts', 0) + 1
        if k.starts == getattr(k, 'fail_start', None):
            k.count(k.fired, 'fork fails')
            k.note('FAULT fork')
            raise BlockingIOError(11, 'Resource temporarily unavailable')
        task = k.new_task(label)
        self._task = task
        k.procs = getattr(k, 'procs', [])
        k.procs.append(self)
        memo = {}
        if type(self).run is SimProcess.run:
            target = clone(self._target, memo)
            args = clone(self._args, memo)
            kwargs = clone(self._kwargs, memo)
            k.keep.append((target, args, kwargs))
            k.start_task(task, lambda: target(*args, **kwargs))
        else:
            twin = object.__new__(type(self))
            twin.__dict__.update(clone(dict(self.__dict__), memo))
            k.keep.append((twin,))
            k.start_task(task, twin.run)
        del self._target, self._args, self._kwargs
        k.progress()
        k.point('start %d' % task.tid)

    def _check(self):
        if self._task is None:
            raise AssertionError('can only join a started process')

    def join(self, timeout=None):
        self._check()
        k = self._kern
        if k.closed:
            return
        k.point('join %d' % self._task.tid, lambda: self._task.done, timeout)

    def is_alive(self):
        if self._task is None:
            return False
        if not self._kern.closed and not _gone():
            self._kern.point('is_alive %d' % self._task.tid)
        return not self._task.done

    def terminate(self):
        self._die(-15)

    def kill(self):
        self._die(-9)

    def _die(self, code):
        k = self._kern
        if self._task is None:
            raise AttributeError(
                "'NoneType' object has no attribute 'terminate'")
        if k.closed or _gone():
            return
        k.point('terminate %d' % self._task.tid)
        if not self._task.done:
            k.probe('terminated while at ' + (
                self._task.where.split(' ')[0] or 'birth'))
            if self._task is k.this_task():
                self._task.killed = True
                self._task.done = True
                self._task.exitcode = code
                raise K.SimKilled()
            k.kill(self._task, code)

    def close(self):
        pass

    @property
    def exitcode(self):
        if self._task is None:
            return None
        if not self._kern.closed and not _gone():
            self._kern.point('exitcode %d' % self._task.tid)
        return self._task.exitcode if self._task.done else None

    @property
    def pid(self):
        return None if self._task is None else self._task.pid

    ident = pid

    @property
    def name(self):
        return self._name

    @name.setter
    def name(self, v):
        self._name = v

    @property
    def daemon(self):
        return self._daemon

    @daemon.setter
    def daemon(self, v):
        self._daemon = bool(v)

    @property
    def sentinel(self):
        raise K.HarnessError('Process.sentinel is not simulated')


class _CurrentProcess(object):
    daemon = False
    authkey = b'sim'

    def __init__(self, task):
        self.name = 'MainProcess' if task.tid == 0 else 'Process-%d' % task.tid
        self.pid = task.pid
        self.ident = task.pid
        self.exitcode = None

    def is_alive(self):
        return True


class _SimContext(object):
    """What get_context() returns during a simulation."""

    def __getattr__(self, name):
        return getattr(multiprocessing, name)

    def get_start_method(self, allow_none=False):
        return 'fork'


def _pick(name, sim):
    real = getattr(multiprocessing, name)
    REAL[name] = real

    def chooser(*a, **k):
        if K.active() is not None:
            return sim(*a, **k)
        return real(*a, **k)
    chooser.__name__ = name
    return chooser


class _ProcessMeta(type):
    def __instancecheck__(cls, inst):
        return isinstance(inst, (SimProcess, REAL['Process']))

    def __call__(cls, *a, **k):
        if cls is Process:
            if K.active() is not None:
                return SimProcess(*a, **k)
            return REAL['Process'](*a, **k)
        return type.__call__(cls, *a, **k)


class Process(SimProcess, metaclass=_ProcessMeta):
    pass


_INSTALLED = []


def _unsupported(name):
    def f(*a, **k):
        if K.active() is not None:
            raise K.HarnessError('multiprocessing.%s is not simulated' % name)
        return REAL[name](*a, **k)
    return f


def install():
    if _INSTALLED:
        return
    _INSTALLED.append(1)
    mp = multiprocessing
    REAL['Process'] = mp.Process
    new = {
        'Value': SimValue,
        'Array': SimArray,
        'RawValue': lambda t, *a: SimValue(t, *a),
        'RawArray': lambda t, i: SimArray(t, i),
        'Lock': lambda: SimLock(),
        'RLock': lambda: SimLock(recursive=True),
        'Semaphore': lambda value=1: SimSemaphore(value),
        'BoundedSemaphore': lambda value=1: SimSemaphore(value, True),
        'Event': lambda: SimEvent(),
        'Condition': lambda lock=None: SimCondition(lock),
        'Barrier': lambda *a, **k: SimBarrier(*a, **k),
        'Queue': lambda maxsize=0: SimQueue(_QueueState(maxsize)),
        'JoinableQueue': lambda maxsize=0: SimQueue(_QueueState(maxsize)),
        'SimpleQueue': lambda: SimQueue(_QueueState(0)),
        'Manager': SimManager,
        'current_process': lambda: _CurrentProcess(_k().this_task()),
        'parent_process': lambda: _CurrentProcess(_k().main),
        'active_children': lambda: [
            p for p in getattr(_k(), 'procs', []) if p.is_alive()],
        'get_context': lambda method=None: _SimContext(),
    }
    for name, sim in new.items():
        setattr(mp, name, _pick(name, sim))
    for name in ('Pool', 'Pipe'):
        REAL[name] = getattr(mp, name)
        setattr(mp, name, _unsupported(name))
    mp.Process = Process

    # clocks
    for name in ('sleep', 'time', 'monotonic', 'perf_counter', 'time_ns',
                 'monotonic_ns', 'perf_counter_ns'):
        REAL['time.' + name] = getattr(time, name)

    def sleep(seconds):
        k = K.active()
        if k is None:
            if QUIET[0]:
                return
            return REAL['time.sleep'](seconds)
        k.sleep(seconds)

    def clock(name, scale):
        real = REAL['time.' + name]

        def f():
            k = K.active()
            if k is None:
                c = CLOCK[0]
                if c is not None:
                    v = c(name)
                    return v if scale == 1 else int(v * scale)
                return real()
            v = k.now / 1e6 + 1.6e9
            return v if scale == 1 else int(v * scale)
        f.__name__ = name
        return f
    time.sleep = sleep
    for name in ('time', 'monotonic', 'perf_counter'):
        setattr(time, name, clock(name, 1))
    for name in ('time_ns', 'monotonic_ns', 'perf_counter_ns'):
        setattr(time, name, clock(name, 10 ** 9))

    real_getpid = os.getpid

    def getpid():
        k = K.active()
        if k is not None:
            t = k.this_task()
            if t is not k.main:
                return t.pid
        return real_getpid()
    os.getpid = getpid


# no real sleeping between simulations (finalisers call kill())
QUIET = [False]
# a clock used when no kernel is active (storage simulations)
CLOCK = [None]


class simulation(object):
    """with simulation(kernel): ... - makes a kernel the active one."""

    def __init__(self, kern):
        self.kern = kern

    def __enter__(self):
        if K.ACTIVE is not None:
            raise K.HarnessError('nested simulation')
        K.ACTIVE = self.kern
        return self.kern

    def __exit__(self, *a):
        try:
            self.kern.close()
        finally:
            K.ACTIVE = None
        return False
