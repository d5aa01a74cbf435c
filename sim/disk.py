"""A simulated disk under the storage code: crashes and I/O errors.

Every file operation below one scratch directory that Python code performs
(open, write, fsync, close, rename, remove, mkdir, ...) and the two file
writes of a TensorFlow checkpoint are numbered.  A fault list says what
happens at operation number k of the current API call:

  crash, mode 'lost'   the process dies before operation k takes effect;
                       data still in its buffers is gone
  crash, mode 'torn'   operation k takes effect in part (half of the bytes)
  crash, mode 'late'   the process dies right after operation k
  error                operation k fails with an OSError (writes may have
                       written a part); sticky: all later writes fail as well
                       until the call returns (full disk)

After a crash nothing reaches the disk any more: every later operation of the
dead process (clean-up code, finalisers, buffers being flushed) is ignored.
The buffers are Python's own ones, their size is drawn per run.
"""
import builtins
import errno
import io
import os
import shutil
import tempfile
import zlib

from . import store

REAL = {n: getattr(os, n) for n in (
    'open', 'write', 'pwrite', 'close', 'remove', 'unlink', 'rename',
    'replace', 'mkdir', 'rmdir', 'link', 'symlink', 'truncate', 'ftruncate',
    'fsync', 'fdatasync', 'utime', 'chmod', 'sendfile')}
REAL_OPEN = builtins.open
if hasattr(os, 'copy_file_range'):
    REAL['copy_file_range'] = os.copy_file_range


class SimCrash(BaseException):
    """The simulated process dies here."""


class Disk(object):
    """State of the simulated disk of one run."""

    def __init__(self, root, bufsize=512, keep_log=False):
        self.root = root
        self.bufsize = bufsize
        self.epoch = 0
        self.dead = False
        self.armed = None
        self.count = 0
        self.total = 0
        self.sticky = None
        self.hash = 0
        self.log = [] if keep_log else None
        self.fired = {}
        self.fds = {}
        self.order = []
        self.reading = True

    # ---- bookkeeping -----------------------------------------------------
    def note(self, text):
        self.hash = zlib.crc32(text.encode('utf8', 'replace'), self.hash)
        if self.log is not None:
            self.log.append(text)

    def fire(self, name):
        self.fired[name] = self.fired.get(name, 0) + 1

    def rel(self, path):
        return os.path.relpath(path, self.root).replace(
            str(os.getpid()), 'PID')

    def call(self, fault=None):
        """A new API call starts; fault as described above or None."""
        self.count = 0
        self.sticky = None
        self.armed = dict(fault) if fault else None
        self.hit = False

    def end_call(self):
        """The API call returned: a crash not yet reached happens now."""
        a = self.armed
        self.armed = None
        self.sticky = None
        if a is not None and not self.hit and a['type'] == 'crash':
            self.fire('crash after return')
            self.dead = True
            return True
        return False

    def restart(self):
        self.dead = False
        self.epoch += 1
        self.armed = None
        self.sticky = None
        for fd in list(self.fds):
            self.fds[fd] = (self.fds[fd][0], -1)

    # ---- one operation ---------------------------------------------------
    def op(self, kind, path, write=True):
        """Decide about the next operation.

        Returns None (perform it), or a decision tuple:
          ('skip',)        the process is dead, pretend
          ('torn',)        perform half of it, then crash
          ('late',)        perform it, then crash
          ('part', exc)    perform half of it, then raise exc
        or raises (SimCrash, OSError).
        """
        if self.dead:
            return ('skip',)
        k = self.count
        a = self.armed
        if a is None or (a.get('match', '') in path and
                         (write or not a.get('writes'))):
            # the operations a fault counts
            self.count += 1
        else:
            k = -1
        self.total += 1
        name = '%s %s' % (kind, self.rel(path))
        self.note(name)
        if self.sticky is not None and write and kind not in (
                'remove', 'rmdir'):
            self.fire('error (disk full)')
            raise OSError(self.sticky, os.strerror(self.sticky), path)
        if a is None or a['op'] != k:
            return None
        self.hit = True
        if a['type'] == 'crash':
            mode = a.get('mode', 'lost')
            if mode == 'torn' and kind not in ('write', 'ckpt-data',
                                               'ckpt-index'):
                mode = 'lost'
            self.fire('crash %s at %s' % (mode, kind))
            self.note('CRASH %s' % mode)
            if mode == 'lost':
                self.dead = True
                raise SimCrash(name)
            return (mode,)
        no = getattr(errno, a.get('errno', 'EIO'))
        if no == errno.ENOSPC and kind in ('remove', 'rmdir', 'read-open'):
            no = errno.EIO
        if a.get('sticky') and no == errno.ENOSPC:
            self.sticky = no
        self.fire('error %s at %s' % (errno.errorcode[no], kind))
        self.note('ERROR %s' % errno.errorcode[no])
        exc = OSError(no, os.strerror(no), path)
        if a.get('partial') and kind in ('write', 'ckpt-data', 'ckpt-index'):
            return ('part', exc)
        raise exc

    def crash(self):
        self.dead = True
        raise SimCrash()

    def ours(self, path, dir_fd=None):
        """Absolute path if it lies on this disk, else None."""
        if isinstance(path, int):
            return None
        try:
            p = os.fspath(path)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if not os.path.isabs(p):
            if dir_fd is not None:
                try:
                    p = os.path.join(os.readlink('/proc/self/fd/%d' % dir_fd),
                                     p)
                except OSError:
                    return None
            else:
                p = os.path.abspath(p)
        p = os.path.normpath(p)
        if p == self.root or p.startswith(self.root + os.sep):
            return p
        return None


ACTIVE = [None]


class FaultRaw(io.FileIO):
    """The raw layer of a file opened for writing on the simulated disk."""

    def __init__(self, file, mode, path, disk, closefd=True):
        io.FileIO.__init__(self, file, mode, closefd)
        self._sim_path = path
        self._sim_disk = disk
        self._sim_epoch = disk.epoch

    def write(self, data):
        d = self._sim_disk
        if d.dead or d.epoch != self._sim_epoch:
            return len(data)
        dec = d.op('write', self._sim_path)
        if dec is None:
            return io.FileIO.write(self, data)
        return _part_write(
            dec, d, data, lambda x: io.FileIO.write(self, x))

    def truncate(self, size=None):
        d = self._sim_disk
        if d.dead or d.epoch != self._sim_epoch:
            return 0
        dec = d.op('truncate', self._sim_path)
        n = io.FileIO.truncate(self, size)
        _after(dec, d)
        return n


def _part_write(dec, d, data, real):
    if dec[0] == 'skip':
        return len(data)
    data = bytes(data)
    if dec[0] == 'late':
        real(data)
        d.crash()
    real(data[:len(data) // 2])
    if dec[0] == 'part':
        raise dec[1]
    d.crash()


def _after(dec, d):
    if dec is not None and dec[0] in ('late', 'torn'):
        d.crash()


def _open(file, mode='r', buffering=-1, encoding=None, errors=None,
          newline=None, closefd=True, opener=None):
    d = ACTIVE[0]
    if d is None:
        return REAL_OPEN(file, mode, buffering, encoding, errors, newline,
                         closefd, opener)
    raw_file = file
    if isinstance(file, int):
        info = d.fds.get(file)
        p = info[0] if info else None
    else:
        p = d.ours(file)
    if p is None or not isinstance(mode, str):
        return REAL_OPEN(file, mode, buffering, encoding, errors, newline,
                         closefd, opener)
    writing = any(c in mode for c in 'wax+')
    if not writing:
        if isinstance(file, int):
            return REAL_OPEN(file, mode, buffering, encoding, errors,
                             newline, closefd, opener)
        if d.reading and os.path.isfile(p):
            dec = d.op('read-open', p, write=False)
            _after(dec, d)
        return REAL_OPEN(file, mode, buffering, encoding, errors, newline,
                         closefd, opener)
    # mirrors io.open for the writing modes
    binary = 'b' in mode
    rawmode = mode.replace('b', '').replace('t', '')
    dec = None
    if not isinstance(file, int):
        if d.dead:
            raw_file = REAL['open'](os.devnull, os.O_RDWR)
            rawmode = 'w'
        else:
            dec = d.op('open', p)
    raw = FaultRaw(raw_file, rawmode, p, d, closefd)
    if d.dead:
        raw._sim_epoch = -1
    _after(dec, d)
    if buffering == 0:
        return raw
    size = d.bufsize if buffering in (-1, 1) else buffering
    if '+' in rawmode:
        buf = io.BufferedRandom(raw, size)
    else:
        buf = io.BufferedWriter(raw, size)
    if binary:
        return buf
    text = io.TextIOWrapper(buf, encoding, errors, newline,
                            line_buffering=(buffering == 1))
    text.mode = mode
    # TextIOWrapper keeps up to 8 KiB of its own: hand small pieces on
    text._CHUNK_SIZE = 1
    return text


def _os_open(path, flags, mode=0o777, *, dir_fd=None):
    d = ACTIVE[0]
    kw = {} if dir_fd is None else {'dir_fd': dir_fd}
    p = None if d is None else d.ours(path, dir_fd)
    acc = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)
    if p is None or not acc:
        return REAL['open'](path, flags, mode, **kw)
    if d.dead:
        fd = REAL['open'](os.devnull, os.O_RDWR)
        d.fds[fd] = (p, -1)
        return fd
    dec = d.op('open', p)
    fd = REAL['open'](path, flags, mode, **kw)
    d.fds[fd] = (p, d.epoch)
    _after(dec, d)
    return fd


def _fd_info(fd):
    d = ACTIVE[0]
    if d is None:
        return None, None
    info = d.fds.get(fd)
    return d, info


def _os_write(fd, data):
    d, info = _fd_info(fd)
    if info is None:
        return REAL['write'](fd, data)
    if d.dead or info[1] != d.epoch:
        return len(data)
    dec = d.op('write', info[0])
    if dec is None:
        return REAL['write'](fd, data)
    return _part_write(dec, d, data, lambda x: REAL['write'](fd, x))


def _os_close(fd):
    d = ACTIVE[0]
    if d is not None:
        d.fds.pop(fd, None)
    return REAL['close'](fd)


def _fsync(name):
    def f(fd):
        d = ACTIVE[0]
        if d is None:
            return REAL[name](fd)
        n = fd if isinstance(fd, int) else fd.fileno()
        try:
            p = d.ours(os.readlink('/proc/self/fd/%d' % n))
        except OSError:
            p = None
        if p is None:
            return REAL[name](fd)
        dec = d.op('fsync', p)
        _after(dec, d)
    f.__name__ = name
    return f


def _sendfile(out, *a, **k):
    d = ACTIVE[0]
    if d is not None:
        raise OSError(errno.ENOTSOCK, 'not on the simulated disk')
    return REAL['sendfile'](out, *a, **k)


def _copy_file_range(*a, **k):
    if ACTIVE[0] is not None:
        raise OSError(errno.EXDEV, 'not on the simulated disk')
    return REAL['copy_file_range'](*a, **k)


def _one(name, kind):
    real = REAL[name]

    def f(path, *a, **kw):
        d = ACTIVE[0]
        p = None if d is None else d.ours(path, kw.get('dir_fd'))
        if p is None:
            return real(path, *a, **kw)
        dec = d.op(kind, p)
        if dec is not None and dec[0] == 'skip':
            return None
        r = real(path, *a, **kw)
        _after(dec, d)
        return r
    f.__name__ = name
    return f


def _two(name):
    real = REAL[name]

    def f(src, dst, *a, **kw):
        d = ACTIVE[0]
        p = None
        if d is not None:
            p = d.ours(dst, kw.get('dst_dir_fd')) or \
                d.ours(src, kw.get('src_dir_fd'))
        if p is None:
            return real(src, dst, *a, **kw)
        dec = d.op('rename' if name in ('rename', 'replace') else name, p)
        if dec is not None and dec[0] == 'skip':
            return None
        r = real(src, dst, *a, **kw)
        _after(dec, d)
        return r
    f.__name__ = name
    return f


def _checkpoint_write(real_write):
    def write(self, file_prefix, options=None):
        d = ACTIVE[0]
        p = None if d is None else d.ours(file_prefix)
        if p is None:
            return real_write(self, file_prefix, options)
        if d.dead:
            return file_prefix
        tmp = os.path.join(os.path.dirname(d.root), 'ckpt')
        if not os.path.isdir(tmp):
            os.mkdir(tmp)
        try:
            base = os.path.basename(p)
            real_write(self, os.path.join(tmp, 'ckpt'), options)
            folder = os.path.dirname(p)
            if not os.path.isdir(folder):
                os.makedirs(folder)
            data = sorted(n for n in os.listdir(tmp) if '.data-' in n)
            for name, kind in [(n, 'ckpt-data') for n in data] + [
                    ('ckpt.index', 'ckpt-index')]:
                with REAL_OPEN(os.path.join(tmp, name), 'rb') as f:
                    content = f.read()
                target = os.path.join(folder, base + name[len('ckpt'):])
                dec = d.op(kind, target)

                def real(x, target=target):
                    with REAL_OPEN(target, 'wb') as f:
                        f.write(x)
                if dec is None:
                    real(content)
                else:
                    _part_write(dec, d, content, real)
        finally:
            for n in os.listdir(tmp):
                REAL['remove'](os.path.join(tmp, n))
        return file_prefix
    return write


_installed = []


def install():
    """Put the seams in place; they pass through while no disk is active."""
    if _installed:
        return
    _installed.append(1)
    import tensorflow as tf
    builtins.open = _open
    io.open = _open
    os.open = _os_open
    os.write = _os_write
    os.close = _os_close
    os.fsync = _fsync('fsync')
    os.fdatasync = _fsync('fdatasync')
    os.sendfile = _sendfile
    if 'copy_file_range' in REAL:
        os.copy_file_range = _copy_file_range
    for name, kind in (('remove', 'remove'), ('unlink', 'remove'),
                       ('mkdir', 'mkdir'), ('rmdir', 'rmdir'),
                       ('truncate', 'truncate'), ('utime', 'utime'),
                       ('chmod', 'chmod')):
        setattr(os, name, _one(name, kind))
    for name in ('rename', 'replace', 'link', 'symlink'):
        setattr(os, name, _two(name))
    # shutil decides by identity whether the fd based rmtree may be used
    os.supports_dir_fd.update([os.open, os.unlink, os.rmdir, os.mkdir])
    tf.train.Checkpoint.write = _checkpoint_write(tf.train.Checkpoint.write)


class _Names(object):

    def __init__(self):
        self.n = 0

    def __iter__(self):
        return self

    def __next__(self):
        self.n += 1
        return 'tmp%05d' % self.n


class on(object):
    """with on(disk): the code inside runs on this disk."""

    def __init__(self, disk):
        self.disk = disk

    def __enter__(self):
        self.temp = tempfile.mkdtemp(prefix='egtmp_',
                                     dir=store.scratch_base())
        self.was = tempfile.tempdir
        tempfile.tempdir = self.temp
        ACTIVE[0] = self.disk
        # names of temporary files are part of the execution
        tempfile._name_sequence = _Names()
        return self.disk

    def __exit__(self, *a):
        ACTIVE[0] = None
        tempfile._name_sequence = None
        tempfile.tempdir = self.was
        shutil.rmtree(self.temp, ignore_errors=True)


class paused(object):
    """with paused(): looking at the disk from outside, nothing counted."""

    def __enter__(self):
        self.was = ACTIVE[0]
        ACTIVE[0] = None

    def __exit__(self, *a):
        ACTIVE[0] = self.was


def snapshot(root, content=True):
    """{relative path: bytes, or None for a directory} of a tree."""
    out = {}
    was, ACTIVE[0] = ACTIVE[0], None
    try:
        for d, dirs, files in os.walk(root):
            dirs.sort()
            for n in dirs:
                out[os.path.relpath(os.path.join(d, n), root)] = None
            for n in sorted(files):
                p = os.path.join(d, n)
                with REAL_OPEN(p, 'rb') as f:
                    out[os.path.relpath(p, root)] = f.read() if content \
                        else b''
    finally:
        ACTIVE[0] = was
    return out


def rmtree(path):
    was, ACTIVE[0] = ACTIVE[0], None
    try:
        shutil.rmtree(path, ignore_errors=True)
    finally:
        ACTIVE[0] = was
