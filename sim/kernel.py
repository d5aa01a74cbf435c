"""The scheduler: simulated processes, one at a time, one integer decides.

Every simulated process is a real thread that is parked on its own lock.
Exactly one thread runs at any time.  At every synchronisation point (queue,
lock, shared value, sleep, process start/stop, file access) the running thread
calls :meth:`Kernel.point`, and the kernel decides who continues.  Decisions
come from one `random.Random`, or, in a replay, from a recorded list of
deviations from the default rule ("the running task continues; if it cannot,
the lowest numbered runnable task does").

Time is simulated: it advances by a fixed amount per step and jumps to the
next timer when nothing is runnable.
"""
import os
import random
import sys
import threading
import traceback
import zlib
import _thread

_REAL_GETPID = os.getpid


class SimKilled(BaseException):
    """Unwinds the thread of a simulated process that is dead."""


class Hang(BaseException):
    """The system cannot make progress (raised in the driving task)."""

    def __init__(self, kind, info):
        BaseException.__init__(self, kind + ': ' + info)
        self.kind = kind
        self.info = info


class HarnessError(BaseException):
    """Something the simulator does not model: an error of the check."""


ACTIVE = None          # the running Kernel, if any
_tls = threading.local()


def active():
    k = ACTIVE
    if k is not None and not k.closed:
        return k
    return None


class Task(object):

    def __init__(self, kernel, tid, name):
        self.kernel = kernel
        self.tid = tid
        self.name = name
        self.lock = _thread.allocate_lock()
        self.lock.acquire()
        self.pred = None         # blocked until pred() is true
        self.wake = None         # or until this time
        self.stalled_until = None
        self.killed = False
        self.done = False
        self.exitcode = None
        self.started = False
        self.where = ''
        self.pid = 100000 + tid
        self.jumps = 0
        self.prio = 0.

    def ready(self, now):
        if self.done or not self.started:
            return False
        if self.stalled_until is not None:
            if now < self.stalled_until:
                return False
            self.stalled_until = None
        if self.pred is None and self.wake is None:
            return True
        if self.pred is not None and self.pred():
            return True
        return self.wake is not None and now >= self.wake


class Kernel(object):

    JUMP_LIMIT = 3000000

    def __init__(self, sched, faults=(), dt=1000, idle_limit=3000,
                 step_limit=300000, keep_log=False):
        self.sched = dict(sched)
        self.rng = random.Random(self.sched.get('seed', 0))
        self.policy = self.sched.get('policy', 'default')
        self.replay = {int(a): b for a, b in
                       self.sched.get('deviations', ())}
        self.fair_after = self.sched.get('fair_after', 20000)
        self.faults = [dict(f) for f in faults]
        self.dt = dt
        self.idle_limit = idle_limit
        self.step_limit = step_limit
        self.now = 0
        self.step = 0
        self.decision = 0
        self.idle = 0
        self.deviations = []
        self.hash = 0
        self.log = [] if keep_log else None
        self.closed = False
        self.tasks = []
        self.keep = []            # objects that must outlive the run
        self.fired = {}           # fault kind -> count
        self.fault_hooks = {}     # fault type -> callable
        self.probes = {}          # rare condition -> count
        self.worker_errors = []
        self.pending_exc = None
        self.main = Task(self, 0, 'main')
        self.main.started = True
        self.tasks.append(self.main)
        self.current = self.main
        self.objects = 0
        self.rr = 0
        self.min_prio = 0.
        if self.policy == 'pct':
            n = self.sched.get('pct_depth', 3)
            hi = self.sched.get('pct_horizon', 400)
            self.main.prio = self.rng.random()
            self.pct_points = set(self.rng.randrange(1, hi)
                                  for _ in range(n))
        self.switches = 0

    # -- bookkeeping ------------------------------------------------------
    def count(self, table, key):
        table[key] = table.get(key, 0) + 1

    def probe(self, key):
        self.count(self.probes, key)

    def new_id(self):
        self.objects += 1
        return self.objects

    def progress(self):
        self.idle = 0

    def this_task(self):
        t = getattr(_tls, 'task', None)
        if t is not None and t.kernel is self:
            return t
        # a thread that was not started here acts for the one that waits
        return self.current

    def note(self, what):
        rec = '%d %d %s' % (self.step, self.this_task().tid, what)
        self.hash = zlib.crc32(rec.encode(), self.hash)
        if self.log is not None:
            self.log.append('t=%.6f %s [%s]' % (
                self.now / 1e6, rec, self.this_task().name))

    # -- scheduling -------------------------------------------------------
    def point(self, what, pred=None, timeout=None):
        """A synchronisation point of the running task.

        Returns True if pred holds (or no pred was given), False on timeout.
        """
        task = self.this_task()
        if task.killed or (self.closed and task is not self.main):
            raise SimKilled()
        if self.closed:
            raise HarnessError('simulation is over: ' + what)
        task.jumps = 0
        task.where = what
        self.note(what)
        task.pred = pred
        task.wake = None if timeout is None else self.now + int(timeout * 1e6)
        self._schedule(task)
        task.pred = None
        task.wake = None
        if pred is None:
            return True
        return bool(pred())

    def sleep(self, seconds):
        task = self.this_task()
        if task.killed or (self.closed and task is not self.main):
            raise SimKilled()
        if self.closed:
            return
        task.jumps = 0
        task.where = 'sleep'
        self.note('sleep %r' % seconds)
        task.pred = None
        task.wake = self.now + max(1, int(seconds * 1e6))
        self._schedule(task)
        task.wake = None

    def _apply_faults(self):
        for f in self.faults:
            if f.get('done') or f['step'] > self.step:
                continue
            if f['type'] in self.fault_hooks:
                f['done'] = True
                self.note('FAULT %s' % f['type'])
                self.fault_hooks[f['type']](f)
                continue
            cand = [t for t in self.tasks[1:] if t.started and not t.done
                    and (f.get('task') is None or t.tid == f['task'])
                    and not (t.helper and f['type'] == 'kill')]
            if not cand:
                continue
            t = cand[f.get('pick', 0) % len(cand)]
            f['done'] = True
            if f['type'] == 'stall':
                t.stalled_until = self.now + int(f['dur'] * 1e6)
                self.count(self.fired, 'stall')
                self.note('FAULT stall %d' % t.tid)
            elif f['type'] == 'kill' and t is not self.this_task():
                self.count(self.fired, 'kill')
                self.note('FAULT kill %d at %s' % (t.tid, t.where))
                self.probe('killed at ' + (t.where.split(' ')[0] or 'birth'))
                self.kill(t, -9)
            elif f['type'] == 'kill':
                self.count(self.fired, 'kill')
                self.note('FAULT kill self %d' % t.tid)
                self.probe('killed at ' + (t.where.split(' ')[0] or 'birth'))
                t.killed = True
                t.done = True
                t.exitcode = -9

    def _pick(self, cands, task):
        """Choose one of the candidates (sorted by task number)."""
        self.decision += 1
        cur = task if task in cands else None
        default = cur if cur is not None else cands[0]
        if self.decision in self.replay:
            tid = self.replay[self.decision]
            for c in cands:
                if c.tid == tid:
                    if c is not default:
                        self.deviations.append([self.decision, c.tid])
                    return c
            return default
        if self.policy == 'default':
            if self.step > self.fair_after:
                self.rr += 1
                return cands[self.rr % len(cands)]
            return default
        rng = self.rng
        if self.step > self.fair_after:
            self.rr += 1
            choice = cands[self.rr % len(cands)]
        elif self.policy == 'random':
            choice = rng.choice(cands)
        elif self.policy == 'sticky':
            if cur is not None and rng.random() > self.sched['p']:
                choice = cur
            else:
                choice = rng.choice(cands)
        elif self.policy == 'starve':
            slow = self.sched['slow']
            rest = [c for c in cands if c.tid not in slow]
            if rest and rng.random() < self.sched.get('bias', 0.97):
                choice = rng.choice(rest)
            else:
                choice = rng.choice(cands)
        elif self.policy == 'pct':
            if self.step in self.pct_points and cur is not None:
                self.min_prio -= 1.
                cur.prio = self.min_prio
            best = max(c.prio for c in cands)
            choice = [c for c in cands if c.prio == best][0]
            # a polling task must not starve the rest forever
            if rng.random() < 0.02:
                choice = rng.choice(cands)
        else:
            raise HarnessError('unknown policy %r' % self.policy)
        if choice is not default:
            self.deviations.append([self.decision, choice.tid])
        return choice

    def _hang(self, kind):
        info = '; '.join('%s#%d %s' % (
            t.name, t.tid,
            'dead(%s)' % t.exitcode if t.done else 'at ' + t.where)
            for t in self.tasks)
        return Hang(kind, 'step %d, t=%.3fs: %s' % (
            self.step, self.now / 1e6, info))

    def _schedule(self, task, finishing=False):
        self.step += 1
        self.now += self.dt
        self.idle += 1
        if self.faults:
            self._apply_faults()
            if task.killed and not finishing:
                raise SimKilled()
        nxt = None
        stalled = any(t.stalled_until is not None and not t.done
                      for t in self.tasks)
        if stalled:
            self.idle = 0
        hang = None
        if self.step > self.step_limit:
            hang = self._hang('no-end')
        elif self.idle > self.idle_limit:
            hang = self._hang('no-progress')
        else:
            cands = [t for t in self.tasks if t.ready(self.now)]
            if not cands:
                times = []
                for t in self.tasks:
                    if t.done or not t.started:
                        continue
                    if t.stalled_until is not None:
                        times.append(t.stalled_until)
                    elif t.wake is not None:
                        times.append(t.wake)
                if times:
                    self.now = max(self.now, min(times))
                    cands = [t for t in self.tasks if t.ready(self.now)]
                    if not cands:
                        # a stalled task woke up but is still blocked
                        return self._schedule(task, finishing)
                else:
                    hang = self._hang('deadlock')
        if hang is not None:
            self.pending_exc = hang
            nxt = self.main
        elif len(cands) == 1:
            nxt = cands[0]
        else:
            nxt = self._pick(cands, task)
        if nxt is not task:
            self._switch(task, nxt)
        elif task.killed:
            raise SimKilled()
        if task is self.main and self.pending_exc is not None:
            exc, self.pending_exc = self.pending_exc, None
            self.raised = exc
            raise exc

    def _switch(self, task, nxt):
        self.switches += 1
        self.current = nxt
        dead = task.done
        nxt.lock.release()
        if dead and task is not self.main:
            raise SimKilled()
        task.lock.acquire()
        if task.killed:
            raise SimKilled()

    # -- processes --------------------------------------------------------
    def new_task(self, name):
        t = Task(self, len(self.tasks), name)
        if self.policy == 'pct':
            t.prio = self.rng.random()
        self.tasks.append(t)
        return t

    def start_task(self, task, fn):
        def run():
            _tls.task = task
            task.lock.acquire()
            try:
                if not (task.killed or self.closed):
                    fn()
                if not task.killed:
                    task.exitcode = 0
            except SimKilled:
                pass
            except SystemExit as e:
                task.exitcode = e.code if isinstance(e.code, int) else 1
            except HarnessError as e:
                self.pending_exc = e
                task.exitcode = 1
            except Hang as e:
                self.pending_exc = e
                task.exitcode = 1
            except BaseException as e:
                task.exitcode = 1
                self.worker_errors.append('%s: %r' % (task.name, e))
                if self.log is not None:
                    self.log.append(traceback.format_exc())
                if os.environ.get('SIM_DEBUG'):
                    traceback.print_exc()
            self._finish(task)
        th = threading.Thread(target=run, daemon=True)
        task.thread = th
        task.started = True
        th.start()

    def _finish(self, task):
        """End of a task's thread: pass control on."""
        if task.killed or self.closed:
            # the one who killed it (or closed the kernel) waits for it
            task.done = True
            if task.reaper is not None:
                task.reaper.release()
            elif self.pending_exc is None and not self.closed:
                self._hand_over(task)
            return
        task.done = True
        self.progress()
        self._hand_over(task)

    def _hand_over(self, task):
        try:
            if self.pending_exc is not None:
                self.switches += 1
                self.current = self.main
                self.main.lock.release()
                return
            self.note('exit %s' % task.exitcode)
            self._schedule(task, finishing=True)
        except SimKilled:
            pass

    def kill(self, task, code):
        """Kill another task: it unwinds without any further effect."""
        if task.done:
            return
        task.killed = True
        task.done = True
        task.exitcode = code
        self.progress()
        self._reap(task)

    def _reap(self, task):
        reaper = _thread.allocate_lock()
        reaper.acquire()
        task.reaper = reaper
        task.lock.release()
        if not reaper.acquire(timeout=60):
            raise HarnessError('task %s does not unwind' % task.name)

    def close(self):
        """End the run: unwind every remaining task."""
        if self.closed:
            return
        self.closed = True
        for t in self.tasks[1:]:
            if t.started and not t.done:
                t.killed = True
                self._reap(t)
        self.keep = []

    # -- driving ----------------------------------------------------------
    def settle(self, seconds=3600.):
        """Let everything else run until it is quiet or time is over."""
        end = self.now + int(seconds * 1e6)
        quiet = 0
        while self.now < end:
            before = self.step
            self.sleep(min(5., (end - self.now) / 1e6 + 1e-6))
            if self.step - before <= 1:
                quiet += 1
                if quiet > 3:
                    break
            else:
                quiet = 0
            if not any(t.started and not t.done for t in self.tasks[1:]):
                break


Task.reaper = None
Task.helper = False      # a thread, not a process
Kernel.raised = None
Task.thread = None


# -- catching endless loops that never reach a synchronisation point ---------
_MON = {'on': False}


def _jump(code, a, b):
    k = ACTIVE
    if k is None or k.closed:
        return
    t = getattr(_tls, 'task', None)
    if t is None or t.kernel is not k:
        t = k.current
    t.jumps += 1
    if t.jumps > Kernel.JUMP_LIMIT:
        t.jumps = 0
        if t.killed:
            raise SimKilled()
        raise k._hang('endless-loop in %s' % code.co_name)


def watch_code(modules):
    """Count backward jumps in all functions of the given modules."""
    mon = sys.monitoring
    tool = mon.PROFILER_ID
    if not _MON['on']:
        mon.use_tool_id(tool, 'sim')
        mon.register_callback(tool, mon.events.JUMP, _jump)
        _MON['on'] = True
        _MON['seen'] = set()
    seen = _MON['seen']

    def walk(code):
        if id(code) in seen:
            return
        seen.add(id(code))
        mon.set_local_events(tool, code, mon.events.JUMP)
        for c in code.co_consts:
            if hasattr(c, 'co_code'):
                walk(c)

    def visit(obj, modname, depth=0):
        if depth > 3:
            return
        if hasattr(obj, '__wrapped__'):
            visit(obj.__wrapped__, modname, depth + 1)
        if hasattr(obj, '__code__'):
            walk(obj.__code__)
        elif isinstance(obj, (staticmethod, classmethod)):
            visit(obj.__func__, modname, depth + 1)
        elif isinstance(obj, property):
            for f in (obj.fget, obj.fset):
                if f is not None:
                    visit(f, modname, depth + 1)
        elif isinstance(obj, type) and obj.__module__ == modname:
            for v in list(vars(obj).values()):
                visit(v, modname, depth + 1)

    for m in modules:
        for v in list(vars(m).values()):
            if getattr(v, '__module__', None) == m.__name__:
                visit(v, m.__name__)
