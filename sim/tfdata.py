"""tf.data under the scheduler.

The python generator behind a tf.data.Dataset is called from a thread of
TensorFlow while the thread that asked for the element waits, which keeps the
rule "one thread at a time".  The only part of the data set that runs on its
own is `prefetch`: it is replaced by a simulated task with the same bounded
buffer.
"""
import contextlib

import tensorflow as tf

from . import kernel as K

CALLS = []          # arguments of prefetch in this run


def _options():
    o = tf.data.Options()
    o.autotune.enabled = False
    o.experimental_optimization.apply_default_optimizations = False
    o.experimental_optimization.inject_prefetch = False
    o.threading.private_threadpool_size = 2
    return o


class Prefetched(object):
    """dataset.prefetch(limit)."""

    def __init__(self, dataset, limit):
        CALLS.append(limit)
        self._dataset = dataset
        self._limit = limit

    def __getattr__(self, name):
        return getattr(self._dataset, name)

    def prefetch(self, limit, name=None):
        return Prefetched(self._dataset, max(limit, self._limit))

    def __iter__(self):
        return Iterator(self._dataset, self._limit)


class Iterator(object):

    def __init__(self, dataset, limit):
        self._inner = iter(dataset.with_options(_options()))
        self._limit = limit if limit and limit > 0 else 2
        self._buffer = []
        self._end = None
        self._task = None
        self._kern = K.active()
        self.element_spec = dataset.element_spec

    def __iter__(self):
        return self

    def _work(self):
        k, task = self._kern, self._task
        while True:
            k.point('prefetch', pred=lambda: len(self._buffer) < self._limit)
            try:
                x = next(self._inner)
            except StopIteration as e:
                self._end = e
                break
            except Exception as e:
                if task.killed or k.closed:
                    raise K.SimKilled()
                self._end = e
                break
            self._buffer.append(x)
        k.point('prefetch done')

    def __next__(self):
        k = self._kern
        if self._task is None:
            self._task = k.new_task('prefetch')
            self._task.helper = True
            k.start_task(self._task, self._work)
        k.point('prefetch get', pred=lambda: self._buffer or self._end)
        if self._buffer:
            return self._buffer.pop(0)
        if isinstance(self._end, StopIteration):
            raise StopIteration
        raise self._end

    next = __next__


@contextlib.contextmanager
def simulated():
    del CALLS[:]
    cls = tf.data.Dataset
    real = cls.prefetch
    cls.prefetch = lambda self, buffer_size, name=None: Prefetched(
        self, buffer_size)
    try:
        yield
    finally:
        cls.prefetch = real
