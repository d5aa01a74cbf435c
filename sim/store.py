"""The simulated input file system of the data pipeline.

File names are real (empty) files in a scratch directory, so that every way
of globbing or testing for existence works; their content lives here, outside
of the memory of every simulated process.  Directory listings of the scratch
directory are returned in an order chosen by the seed.
"""
import os
import random
import shutil
import tempfile

from . import kernel as K

_real_scandir = os.scandir
_real_listdir = os.listdir
ROOT = [None]
ORDER = [0]


class _Scan(object):

    def __init__(self, entries):
        self._it = iter(entries)

    def __iter__(self):
        return self._it

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


def _ours(path):
    try:
        p = os.fspath(path)
    except TypeError:
        return False
    if isinstance(p, bytes):
        p = p.decode('utf8', 'replace')
    return ROOT[0] is not None and os.path.abspath(p).startswith(ROOT[0])


def _shuffle(names):
    names = sorted(names)
    random.Random(ORDER[0]).shuffle(names)
    return names


def _scandir(path='.'):
    if isinstance(path, int) or not _ours(path):
        return _real_scandir(path)
    with _real_scandir(path) as it:
        d = {e.name: e for e in it}
    return _Scan([d[n] for n in _shuffle(d)])


def _listdir(path='.'):
    names = _real_listdir(path)
    if isinstance(path, int) or not _ours(path):
        return names
    return _shuffle(names)


os.scandir = _scandir
os.listdir = _listdir


def scratch_base():
    for d in ('/dev/shm', None):
        if d and not os.access(d, os.W_OK):
            continue
        return d


class Scratch(object):
    """A scratch directory, removed at the end."""

    def __init__(self, prefix='egsim_'):
        self.path = tempfile.mkdtemp(prefix=prefix, dir=scratch_base())

    def __enter__(self):
        ROOT[0] = self.path
        return self

    def __exit__(self, *a):
        ROOT[0] = None
        shutil.rmtree(self.path, ignore_errors=True)
