"""Workloads of the batch pipeline and their oracles (P01-P10)."""
from . import env
env.setup()

import contextlib
import gc
import os
import random

import numpy as np

from egenerator.data.handler.base import BaseDataHandler
from egenerator.data.tensor import DataTensor, DataTensorList
from egenerator.manager.component import Configuration

from . import kernel as K
from . import mp
from . import store

K.watch_code(env.egenerator_modules('egenerator.data.handler'))

STORE = {}          # path -> record dict, the simulated disk
EVENTS = []         # (kind, path) in the order of loading
CALLS = []          # arguments of get_batch_generator
TAP = [None]        # gets a copy of every batch, if set


# ------------------------------------------------------------- tensors -----
def make_tensors(layout):
    """Layouts of tensors; every layout carries the identity of the event."""
    t = []
    fl = layout.get('float', 'float32')
    it = layout.get('int', 'int32')
    t.append(DataTensor(name='uid', shape=[None, 1], tensor_type='label',
                        dtype=it))
    t.append(DataTensor(name='feat', shape=[None, 3], tensor_type='data',
                        dtype=fl, trafo=True,
                        trafo_log=[False, True, False]))
    if layout.get('grid'):
        t.append(DataTensor(name='grid', shape=[None, 2, 2, 1],
                            tensor_type='data', dtype=fl, trafo=True,
                            trafo_reduce_axes=(1, 2), trafo_log=True))
    if layout.get('hits'):
        t.append(DataTensor(name='hits', shape=[None, 2], tensor_type='data',
                            vector_info={'type': 'value',
                                         'reference': 'hits_ids'}, dtype=fl))
        t.append(DataTensor(name='hits_ids', shape=[None, 3],
                            tensor_type='data', dtype=it,
                            vector_info={'type': 'index',
                                         'reference': 'hits'}))
    if layout.get('tw'):
        t.append(DataTensor(name='tw_ids', shape=[None, 2],
                            tensor_type='misc', dtype='int32',
                            vector_info={'type': 'index',
                                         'reference': 'tw'}))
        t.append(DataTensor(name='tw', shape=[None, 3], tensor_type='misc',
                            dtype=fl,
                            vector_info={'type': 'value',
                                         'reference': 'tw_ids'}))
    if layout.get('ghost'):
        t.append(DataTensor(name='ghost', shape=[None, 4],
                            tensor_type='weight', dtype='float64',
                            exists=False))
    if layout.get('ghostvec'):
        t.append(DataTensor(name='gv', shape=[None, 2], tensor_type='data',
                            dtype=fl, exists=False,
                            vector_info={'type': 'value',
                                         'reference': 'gv_ids'}))
        t.append(DataTensor(name='gv_ids', shape=[None, 3],
                            tensor_type='data', dtype='int32', exists=False,
                            vector_info={'type': 'index',
                                         'reference': 'gv'}))
    if layout.get('mask'):
        t.append(DataTensor(name='mask', shape=[None, 3], tensor_type='data',
                            dtype='uint8'))
    return DataTensorList(t)


def event_hits(uid, layout):
    n = (uid * 7 + layout.get('salt', 0)) % 5
    if layout.get('nohits'):
        n = 0
    return n


def expected_event(uid, layout):
    """All tensors of one event, as plain tuples keyed by tensor name."""
    rec = {'uid': (uid,), 'feat': (uid * 2, uid % 17, 3.5)}
    if layout.get('grid'):
        rec['grid'] = (uid, uid % 3, 1, uid % 5)
    if layout.get('hits'):
        n = event_hits(uid, layout)
        rec['hits'] = tuple((uid, j) for j in range(n))
        rec['hits_ids'] = tuple((uid % 11, (uid + 3 * j) % 13)
                                for j in range(n))
    if layout.get('tw'):
        n = (uid * 5 + 1) % 3
        rec['tw'] = tuple((uid, j, j * 2) for j in range(n))
        rec['tw_ids'] = tuple(((uid + j) % 7,) for j in range(n))
    if layout.get('mask'):
        rec['mask'] = (uid % 2 == 0, uid % 3 == 0, True)
    return rec


def file_content(uids, layout, tensors):
    """(num_events, data) as a handler would read them from file."""
    wide = layout.get('wide', False)
    n = len(uids)
    recs = [expected_event(u, layout) for u in uids]
    out = []
    for t in tensors.list:
        if not t.exists:
            out.append(None)
            continue
        dt = getattr(np, t.dtype)
        if wide and t.dtype.startswith('float'):
            dt = np.float64
        if wide and t.dtype.startswith('int'):
            dt = np.int64
        if t.vector_info is None:
            arr = np.array([r[t.name] for r in recs], dtype=dt)
            out.append(arr.reshape([n] + list(t.shape[1:])))
        elif t.vector_info['type'] == 'value':
            rows = [v for r in recs for v in r[t.name]]
            out.append(np.array(rows, dtype=dt).reshape(
                [len(rows)] + list(t.shape[1:])))
        else:
            rows = [(i,) + tuple(v) for i, r in enumerate(recs)
                    for v in r[t.name]]
            out.append(np.array(rows, dtype=dt).reshape(
                [len(rows)] + list(t.shape[1:])))
    # the index tensor may interleave the events in the file
    if layout.get('interleave'):
        for t in tensors.list:
            if t.exists and t.vector_info is not None and \
                    t.vector_info['type'] == 'index':
                i = tensors.get_index(t.name)
                j = tensors.get_index(t.vector_info['reference'])
                # stable: order within an event is kept
                key = np.array([(k % 3) for k in range(len(out[i]))])
                order = _riffle(out[i][:, 0])
                out[i] = out[i][order]
                out[j] = out[j][order]
    return n, tuple(out)


def _riffle(ids):
    """Interleave entries of different events, keeping each event's order."""
    seen = {}
    rank = []
    for e in ids:
        seen[e] = seen.get(e, 0) + 1
        rank.append(seen[e])
    return np.array(sorted(range(len(ids)), key=lambda k: (rank[k], ids[k])),
                    dtype=int)


def tapped(generator, log):
    for batch in generator:
        log.append([np.array(x) for x in batch])
        yield batch


class SynthHandler(BaseDataHandler):
    """A data handler reading from the simulated disk."""

    def _configure_derived_class(self, config, config_data=None):
        tensors = make_tensors(config['layout'])
        return Configuration(
            class_string='sim.pipeline.SynthHandler',
            settings={'config': config, 'config_data': config_data},
        ), {'tensors': tensors}, {}

    def get_batch_generator(self, *args, **kwargs):
        CALLS.append((args, kwargs))
        out = super().get_batch_generator(*args, **kwargs)
        return out if TAP[0] is None else tapped(out, TAP[0])

    def _get_data_from_hdf(self, file, *args, **kwargs):
        k = K.active()
        file = str(file)
        rec = STORE.get(file)
        k.point('open ' + os.path.basename(file))
        EVENTS.append(('open', file, k.step))
        if rec is not None and rec.get('vanish_at') == 'open' and \
                os.path.exists(file):
            os.remove(file)
        if rec is None or not os.path.exists(file):
            k.count(k.fired, 'vanished')
            raise IOError('no such file: %s' % file)
        fault = rec.get('fault')
        if rec.get('slow'):
            k.count(k.fired, 'slow read')
            k.sleep(rec['slow'])
        once = rec.get('once')
        if fault and (not once or not rec.get('failed')):
            rec['failed'] = True
            k.count(k.fired, fault)
            if fault == 'open-error':
                raise IOError('unable to open file (truncated)')
            if fault == 'read-error':
                k.point('read ' + os.path.basename(file))
                raise OSError(5, 'Input/output error')
            if fault == 'key-error':
                raise KeyError('No object named pulses in the file')
            if fault == 'memory-error':
                raise MemoryError('Unable to allocate 3 GiB')
            if fault == 'value-error':
                raise ValueError('10 != 9')
            if fault == 'skip':
                return None, None
        if rec.get('expect_args') is not None:
            if [list(args), dict(kwargs)] != rec['expect_args']:
                raise AssertionError('arguments not passed on: %r %r'
                                     % (args, kwargs))
        k.point('read ' + os.path.basename(file))
        n, data = file_content(rec['uids'], self.configuration.config[
            'config']['layout'], self.tensors)
        if n == 0:
            if rec.get('empty_ok'):
                return 0, data
            return None, None
        EVENTS.append(('loaded', file, k.step))
        k.progress()
        return n, data


class Selection(object):
    """A biased selection: keeps a subset of the events of a file."""

    def __init__(self, tensors, mod, rest):
        self.tensors = tensors
        self.mod = mod
        self.rest = rest

    def keeps(self, uid):
        return uid % self.mod != self.rest

    def select(self, data):
        ui = self.tensors.get_index('uid')
        uids = data[ui][:, 0]
        mask = np.array([self.keeps(int(u)) for u in uids], dtype=bool)
        new_id = np.cumsum(mask) - 1
        out = []
        keep_entry = {}
        for i, t in enumerate(self.tensors.list):
            if data[i] is not None and t.vector_info is not None and \
                    t.vector_info['type'] == 'index':
                m = mask[data[i][:, 0].astype(int)] if len(data[i]) else \
                    np.zeros(0, dtype=bool)
                keep_entry[t.name] = m
                keep_entry[t.vector_info['reference']] = m
        for i, t in enumerate(self.tensors.list):
            if data[i] is None:
                out.append(None)
            elif t.vector_info is None:
                out.append(data[i][mask])
            else:
                arr = data[i][keep_entry[t.name]]
                if t.vector_info['type'] == 'index' and len(arr):
                    arr = arr.copy()
                    arr[:, 0] = new_id[arr[:, 0].astype(int)]
                out.append(arr)
        return tuple(out)


# -------------------------------------------------------------- oracles ----
class Violation(Exception):

    def __init__(self, kind, info):
        Exception.__init__(self, '%s: %s' % (kind, info))
        self.kind = kind
        self.info = info


def fail(kind, info, *a):
    raise Violation(kind, info % a if a else info)


def decode_batch(batch, tensors, layout, batch_size, strict_dtype=True):
    """Check one batch (P03) and return the list of its event uids."""
    if not isinstance(batch, (tuple, list)) or len(batch) != tensors.len:
        fail('malformed', 'batch has %r entries, expected %d' % (
            len(batch) if hasattr(batch, '__len__') else type(batch),
            tensors.len))
    batch = [np.asarray(b.numpy() if hasattr(b, 'numpy') else b)
             for b in batch]
    u = batch[tensors.get_index('uid')]
    if u.ndim != 2 or u.shape[1] != 1:
        fail('malformed', 'uid tensor has shape %r' % (u.shape,))
    n = u.shape[0]
    if n < 1 or n > batch_size:
        fail('malformed', 'batch holds %d events, batch_size is %d'
             % (n, batch_size))
    uids = [int(x) for x in u[:, 0]]
    recs = [expected_event(x, layout) for x in uids]
    for i, t in enumerate(tensors.list):
        b = batch[i]
        if not t.exists:
            continue
        if strict_dtype and b.dtype != np.dtype(getattr(np, t.dtype)):
            fail('dtype', '%s is %s, declared %s (batch of %d/%d)' % (
                t.name, b.dtype, t.dtype, n, batch_size))
        if b.ndim != len(t.shape) or any(
                s is not None and s != g for s, g in zip(t.shape, b.shape)):
            fail('shape', '%s has shape %r, declared %r' % (
                t.name, b.shape, t.shape))
        if t.vector_info is None:
            if b.shape[0] != n:
                fail('malformed', '%s has %d rows, batch has %d events' % (
                    t.name, b.shape[0], n))
            for j in range(n):
                want = np.array(recs[j][t.name]).astype(b.dtype)
                if not np.array_equal(b[j].ravel(), want.ravel()):
                    fail('misaligned', 'row %d of %s is %r, event %d has %r'
                         % (j, t.name, b[j].ravel().tolist(), uids[j],
                            want.tolist()))
        elif t.vector_info['type'] == 'index':
            vname = t.vector_info['reference']
            v = batch[tensors.get_index(vname)]
            if len(v) != len(b):
                fail('malformed', '%s has %d entries, %s has %d' % (
                    vname, len(v), t.name, len(b)))
            if len(b) and (b[:, 0].min() < 0 or b[:, 0].max() >= n):
                fail('misaligned', '%s refers to event %r of %d' % (
                    t.name, b[:, 0].tolist(), n))
            for j in range(n):
                m = b[:, 0] == j
                got_v = [tuple(r) for r in v[m].tolist()]
                got_i = [tuple(r) for r in b[m][:, 1:].tolist()]
                want_v = [tuple(float(np.asarray(y).astype(v.dtype))
                                for y in r) for r in recs[j][vname]]
                want_i = [tuple(r) for r in recs[j][t.name]]
                if got_v != want_v or got_i != want_i:
                    fail('misaligned',
                         'entries of event %d (row %d) in %s: %r %r, '
                         'expected %r %r' % (uids[j], j, vname, got_v, got_i,
                                             want_v, want_i))
    return uids


def check_multiset(got, want, reps, what='event'):
    count = {}
    for u in got:
        count[u] = count.get(u, 0) + 1
    for u in sorted(count):
        if u not in want:
            fail('invented', '%s %d was delivered but not expected', what, u)
    lost = [u for u in sorted(want) if count.get(u, 0) < reps]
    if lost:
        fail('lost', '%d of %d events delivered less than %d times: %r'
             % (len(lost), len(want), reps,
                [(u, count.get(u, 0)) for u in lost[:8]]))
    rep = [u for u in sorted(count) if count[u] > reps]
    if rep:
        fail('repeated', 'events delivered more than %d times: %r'
             % (reps, [(u, count[u]) for u in rep[:8]]))


# --------------------------------------------------------------- running ---
mp.QUIET[0] = True


def file_uids(spec):
    return list(range(spec['base'], spec['base'] + spec['n']))


class Stream(object):
    """One batch generator and what it delivered."""

    def __init__(self, ctx, index, spec):
        self.ctx = ctx
        self.index = index
        self.spec = spec
        self.set = spec['set']
        self.batches = 0
        self.sizes = []
        self.uids = []
        self.ended = False
        self.error = None
        self.gen = self.it = self.sel = None
        self.first_proc = len(getattr(ctx.kern, 'procs', []))
        self.layout = ctx.plan['handlers'][spec['handler']].get('layout')

    def start(self):
        ctx, spec = self.ctx, self.spec
        if spec.get('of') is not None:
            # another pass over the same dataset
            first = ctx.stream(spec['of'])
            self.sel = first.sel
            if first.gen is None:
                raise first.error
            self.gen = first.gen
            self.it = iter(self.gen)
            return
        h = ctx.handlers[spec['handler']]
        paths = [ctx.path(p) for p in spec['input']]
        inp = paths[0] if spec.get('as_str') else paths
        sel = None
        if spec.get('sel'):
            sel = Selection(h.tensors, *spec['sel'])
        self.sel = sel
        args = tuple(spec.get('args', ()))
        kw = dict(spec.get('kwargs', {}))
        s = dict(self.set)
        fn = h.get_tf_dataset if spec.get('tf') else h.get_batch_generator
        if args:
            names = ['sample_randomly', 'pick_random_files_forever',
                     'file_capacity', 'batch_capacity']
            if spec.get('tf'):
                names.append('dataset_capacity')
            names += ['num_jobs', 'num_add_files', 'num_repetitions',
                      'num_splits', 'verbose']
            s.setdefault('num_splits', None)
            s.setdefault('verbose', False)
            s.setdefault('dataset_capacity', 2)
            self.gen = fn(inp, s['batch_size'], *([s[n] for n in names] +
                                                  [sel] + list(args)), **kw)
        else:
            if sel is not None:
                kw['biased_selection_module'] = sel
            self.gen = fn(inp, **dict(s, **kw))
        self.it = iter(self.gen)

    def next(self):
        """One batch; False if the stream has ended or failed."""
        if self.ended or self.error is not None:
            return False
        try:
            batch = next(self.it)
        except StopIteration:
            self.ended = True
            self.ctx.check.on_end(self.ctx, self)
            return False
        except Exception as e:
            if self.ctx.kern.raised is not None:
                # on its way through a thread of TensorFlow
                raise self.ctx.kern.raised
            self.error = e
            self.ctx.check.on_error(self.ctx, self, e)
            return False
        self.batches += 1
        uids = self.ctx.check.on_batch(self.ctx, self, batch)
        self.sizes.append(len(uids))
        self.uids.extend(uids)
        return True

    # what is expected
    def files(self):
        """Indices of the listed files, in the order of the input list."""
        return self.spec['files']

    def expected(self, readable_only=True):
        out = []
        for i in self.files():
            f = self.ctx.plan['files'][i]
            if readable_only and f.get('bad'):
                continue
            for u in file_uids(f):
                if self.sel is None or self.sel.keeps(u):
                    out.append(u)
        return out


class Context(object):

    def __init__(self, plan, check, kern, scratch):
        self.plan = plan
        self.check = check
        self.kern = kern
        self.scratch = scratch
        self.streams = {}
        self.handlers = []
        self.killed = set()

    def path(self, p):
        return os.path.join(self.scratch, p)

    def stream(self, g):
        if g not in self.streams:
            st = Stream(self, g, self.plan['gens'][g])
            self.streams[g] = st
            try:
                st.start()
            except Exception as e:
                st.error = e
                self.check.on_create_error(self, st, e)
        return self.streams[g]

    def alive(self, since=0):
        return [p for p in getattr(self.kern, 'procs', [])[since:]
                if p._task is not None and not p._task.done]


class Check(object):
    """Base of the oracles."""

    strict = False       # decode every value of every batch

    def surroundings(self, kern, plan, scratch):
        return contextlib.nullcontext()

    def make_handler(self, spec):
        handler = SynthHandler()
        handler.configure(config={'layout': spec['layout']}, config_data=None)
        return handler

    def on_batch(self, ctx, st, batch):
        h = ctx.handlers[st.spec['handler']]
        if self.strict:
            return decode_batch(batch, h.tensors, st.layout,
                                st.set['batch_size'])
        u = batch[h.tensors.get_index('uid')]
        return [int(x) for x in np.asarray(u).ravel()]

    def on_end(self, ctx, st):
        pass

    def on_error(self, ctx, st, exc):
        fail('error', 'the generator raised %s: %s; worker errors: %r',
             type(exc).__name__, exc, ctx.kern.worker_errors[:3])

    def on_create_error(self, ctx, st, exc):
        raise exc

    def final(self, ctx):
        pass

    def op(self, ctx, op):
        raise K.HarnessError('unknown operation %r' % (op,))


class Result(object):
    pass


def run(plan, check, keep_log=False):
    """Execute one plan; returns a Result."""
    gc_was = gc.isenabled()
    gc.disable()
    if any(op[0] == 'delete' for op in plan['ops']):
        gc.collect()        # nothing of earlier runs may be collected later
    res = Result()
    res.violation = None
    STORE.clear()
    del EVENTS[:]
    del CALLS[:]
    kern = K.Kernel(plan['sched'], plan.get('faults', ()),
                    keep_log=keep_log,
                    step_limit=plan.get('step_limit', 120000))
    ctx = None
    try:
        with store.Scratch() as sc:
            store.ORDER[0] = plan.get('order', 0)
            np.random.seed(plan.get('np_seed', 0) % 2 ** 32)
            for f in plan['files']:
                p = os.path.join(sc.path, f['name'])
                os.makedirs(os.path.dirname(p), exist_ok=True)
                open(p, 'w').close()
                STORE[p] = dict(f, uids=file_uids(f))

            def vanish(f):
                p = os.path.join(sc.path, plan['files'][f['file']]['name'])
                if os.path.exists(p):
                    os.remove(p)
            kern.fault_hooks['vanish'] = vanish
            kern.fail_start = plan.get('fail_start')
            with mp.simulation(kern), check.surroundings(kern, plan, sc.path):
                ctx = Context(plan, check, kern, sc.path)
                try:
                    _body(ctx)
                except Violation as e:
                    res.violation = (e.kind, e.info)
                except K.Hang as e:
                    res.violation = ('hang', '%s; worker errors: %r' % (
                        e, kern.worker_errors[:3]))
                res.steps = kern.step
                res.sim_s = kern.now / 1e6
    finally:
        for st in (ctx.streams.values() if ctx else ()):
            st.gen = st.it = None
        if gc_was:
            gc.enable()
    res.hash = kern.hash
    res.deviations = kern.deviations
    res.fired = kern.fired
    res.probes = kern.probes
    res.switches = kern.switches
    res.log = kern.log
    res.batches = sum(s.batches for s in ctx.streams.values())
    res.worker_errors = kern.worker_errors
    return res


def _body(ctx):
    plan = ctx.plan
    for h in plan['handlers']:
        ctx.handlers.append(ctx.check.make_handler(h))
    for op in plan['ops']:
        name = op[0]
        if name == 'start':
            ctx.stream(op[1])
        elif name == 'next':
            st = ctx.stream(op[1])
            for _ in range(op[2]):
                if not st.next():
                    break
        elif name == 'drain':
            st = ctx.stream(op[1])
            limit = 5000
            while st.next():
                limit -= 1
                if limit < 0:
                    fail('no-end', 'more than 5000 batches delivered')
        elif name == 'pause':
            ctx.kern.sleep(op[1])
        elif name == 'kill':
            ctx.handlers[op[1]].kill()
            ctx.killed.add(op[1])
        elif name == 'delete':
            # forget a handler and its generators
            gone = [g for g, st in ctx.streams.items()
                    if st.spec['handler'] == op[1]]
            for g in gone:
                st = ctx.streams[g]
                st.it = st.gen = None
                st.ended = True
            ctx.handlers[op[1]] = None
            gc.collect()
            ctx.killed.add(op[1])
        elif name == 'drop':
            # give up a generator before its end
            st = ctx.stream(op[1])
            st.it.close()
            st.ended = True
        else:
            ctx.check.op(ctx, op)
    ctx.check.final(ctx)


# ------------------------------------------------------------- generating --
def gen_layout(rng, rich=True):
    lay = {'salt': rng.randrange(5)}
    if not rich:
        return lay
    for key, p in (('grid', .3), ('hits', .7), ('tw', .3), ('ghost', .3),
                   ('ghostvec', .2), ('mask', .2), ('wide', .3),
                   ('interleave', .3)):
        if rng.random() < p:
            lay[key] = True
    if lay.get('hits') and rng.random() < .1:
        lay['nohits'] = True
    if rng.random() < .2:
        lay['float'] = 'float64'
    if rng.random() < .2:
        lay['int'] = 'int64'
    return lay


def gen_files(rng, n, emax=9, prefix='f', base=0, empty=.0):
    out = []
    for i in range(n):
        k = 0 if rng.random() < empty else rng.randint(1, emax)
        out.append({'name': '%s%02d.hdf' % (prefix, i), 'base': base,
                    'n': k})
        base += 50
    if rng.random() < .3:
        rng.shuffle(out)
    for f in out:
        if rng.random() < .12:
            f['slow'] = rng.choice([0.01, 0.3, 2., 10.])
    return out


def gen_settings(rng, finite=True):
    s = {
        'batch_size': rng.choice([1, 2, 3, 4, 5, 7, 8, 12, 20]),
        'sample_randomly': rng.random() < .5,
        'pick_random_files_forever': not finite,
        'file_capacity': rng.choice([1, 1, 1, 2, 3, 5]),
        'batch_capacity': rng.choice([1, 1, 2, 3, 5, 20]),
        'num_jobs': rng.choice([1, 1, 2, 2, 3, 4, 6]),
        'num_add_files': rng.choice([0, 0, 0, 1, 2, 3, 5]),
        'num_repetitions': rng.choice([1, 1, 1, 2, 3]),
    }
    if rng.random() < .1:
        s['verbose'] = True
    return s


def gen_sched(rng, tasks=6):
    x = rng.random()
    seed = rng.randrange(2 ** 30)
    if x < .05:
        return {'policy': 'default', 'seed': seed}
    if x < .3:
        return {'policy': 'random', 'seed': seed}
    if x < .65:
        return {'policy': 'sticky', 'seed': seed,
                'p': rng.choice([.02, .05, .1, .2, .5])}
    if x < .85:
        slow = [t for t in range(tasks) if rng.random() < .35]
        return {'policy': 'starve', 'seed': seed, 'slow': slow,
                'bias': rng.choice([.8, .95, .99])}
    return {'policy': 'pct', 'seed': seed,
            'pct_depth': rng.choice([1, 2, 3, 5]),
            'pct_horizon': rng.choice([60, 150, 400])}


def gen_stalls(rng, p=.4, steps=400):
    out = []
    if rng.random() < p:
        for _ in range(rng.choice([1, 1, 2, 3])):
            out.append({'type': 'stall', 'step': int(10 ** rng.uniform(
                0.3, np.log10(steps))), 'pick': rng.randrange(8),
                'dur': round(10 ** rng.uniform(-2, 1.3), 3)})
    return out


ODD_NAMES = ['[a]', '[0-9]', ' x', '{0}', '.i3', u'\u00fc', '%s', '~', '!', '#',
             "'", '\\', ',b', '[!a]', '[', '?', '*', '$HOME', '-', '=1']


def inputs_of(rng, spec, files, idx):
    """Choose how the file list is described: names, patterns or a str."""
    names = [files[i]['name'] for i in idx]
    spec.pop('as_str', None)
    spec['files'] = list(idx)
    x = rng.random()
    if x < .5 or not names:
        spec['input'] = names
    else:
        spec['input'] = [names[0][:1] + '*.hdf']
        if rng.random() < .25:
            # found through a pattern, file names may hold any character
            for i in idx:
                if rng.random() < .4 and len(files[i]['name']) == 7:
                    files[i]['name'] = files[i]['name'][:3] + rng.choice(
                        ODD_NAMES) + '.hdf'
        if x > .75:
            spec['as_str'] = True
    return spec


def gen_consume(rng, g=0, drain=True):
    ops = []
    if rng.random() < .2:
        ops += [['start', g], ['pause', rng.choice([0.05, 1., 30.])]]
    for _ in range(rng.choice([0, 0, 1, 2, 3])):
        ops.append(['next', g, rng.choice([1, 1, 2, 5])])
        ops.append(['pause', rng.choice([0.001, 0.05, 0.5, 5., 100.])])
    if drain:
        ops.append(['drain', g])
    return ops
