"""Simulated disk.

The files live in a real scratch directory, but every call the code under test
makes on a path below the root of the active simulation goes through here.  A
call is an *event*: it may be delayed in favour of another simulated process,
fail with an errno, transfer fewer bytes than asked, or be the instant at which
the process is killed or the machine loses power.  Which event does what is
decided by the plan of the run, never here.

Writes below any other directory are refused and recorded (containment).
"""
import builtins
import contextlib
import errno
import hashlib
import io
import os
import random
import shutil
import sys
import tempfile
import threading

from . import sched


class SimCrash(BaseException):
    """The simulated process has been killed."""


class SimEscape(Exception):
    pass


real = {}
ACTIVE = None          # the SimFS of the current run phase

ERR = {
    'open_r': ['EACCES', 'EIO', 'EMFILE'],
    'open_w': ['ENOSPC', 'EACCES', 'EMFILE', 'EROFS'],
    'read': ['EIO'],
    'write': ['ENOSPC', 'EIO', 'EDQUOT'],
    'fsync': ['EIO'],
    'rename': ['EIO', 'ENOSPC', 'EACCES'],
    'unlink': ['EACCES', 'EIO'],
    'mkdir': ['ENOSPC', 'EACCES'],
    'listdir': ['EIO', 'EACCES'],
    'truncate': ['EIO', 'ENOSPC'],
    'close': ['EIO'],
    'link': ['ENOSPC', 'EACCES'],
}


def proc():
    return getattr(threading.current_thread(), 'sim_proc', 'p0')


class SimFS(object):
    """One simulated machine's disk for one phase of one run.

    faults: list of dicts {proc, op, k, mode, a, b}; `op` is the label of the
    workload operation during which the fault is armed, `k` counts the file
    system events of that operation.  modes: error, short, crash, power.
    """

    def __init__(self, root, faults=(), wchunk=None, rchunk=None, perm=0,
                 log=None, deny=None):
        self.root = os.path.realpath(root)
        self.faults = {}
        for f in faults:
            self.faults.setdefault((f.get('proc', 'p0'), f['op']),
                                   {})[f['k']] = f
        self.wchunk = wchunk
        self.rchunk = rchunk
        self.deny = dict(deny or {})   # {relative path: errno name}
        self.perm = perm
        self.events = []            # (proc, label, kind, relpath, note)
        self.dead = set()
        self.power = None
        self.cur = {}               # proc -> [label, counter]
        self.fired = {}
        self.errors = {}            # (proc,label) -> [errno names fired]
        self.fds = {}
        self.names = {}
        self.escapes = []
        self.durable = {}           # ino -> bytes
        self.dirty = set()          # inos with unsynced data
        self.pending = []           # unsynced metadata ops with undo data
        self.crash_note = None
        self.sticky = {}
        self._base_durable()

    # -- helpers ---------------------------------------------------------
    def _base_durable(self):
        names = []
        for d, sub, files in os.walk(self.root):
            sub.sort()
            for f in sorted(files):
                names.append(os.path.relpath(os.path.join(d, f), self.root))
            for f in files:
                p = os.path.join(d, f)
                try:
                    st = real['stat'](p)
                    if st.st_size > 200000:
                        continue
                    with real['open'](p, 'rb') as fh:
                        self.durable[st.st_ino] = fh.read()
                except OSError:
                    pass
        # every boot has its own randomness, a function of what is on disk
        self.boot = hashlib.sha256(repr(names).encode()).hexdigest()[:12]

    def covers(self, path):
        """Absolute real path if below the root, else None."""
        if isinstance(path, int):
            return self.fds.get(path)
        try:
            p = os.fspath(path)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        p = os.path.join(real['getcwd'](), p)
        p = os.path.normpath(p)
        head, tail = os.path.split(p)
        p = os.path.join(os.path.realpath(head), tail)
        if p == self.root or p.startswith(self.root + os.sep):
            return p
        return None

    def rel(self, p):
        r = os.path.relpath(p, self.root)
        # temporary names differ between implementations; keep them readable
        return r

    @contextlib.contextmanager
    def hidden(self):
        """The harness looks at the disk without the simulation noticing."""
        global ACTIVE
        old, ACTIVE = ACTIVE, None
        try:
            yield
        finally:
            ACTIVE = old

    def label(self, name):
        """Start of a workload operation for the current process."""
        self.cur[proc()] = [name, 0]

    def kill(self, pr):
        self.dead.add(pr)

    def event(self, kind, path, yields=True):
        pr = proc()
        if pr in self.dead:
            raise SimCrash()
        if yields:
            sched.yield_point('fs')
            if pr in self.dead:
                raise SimCrash()
        cur = self.cur.setdefault(pr, ['-', 0])
        k = cur[1]
        cur[1] += 1
        f = self.faults.get((pr, cur[0]), {}).get(k)
        note = ''
        if f is None and (pr, cur[0], kind) in self.sticky:
            f = dict(self.sticky[(pr, cur[0], kind)], b=0)
        if f is not None:
            note = f['mode']
        rel = self.rel(path)
        self.events.append((pr, cur[0], kind, rel, note))
        if kind == 'open_r' and rel in self.deny and cur[0] != '-':
            name = self.deny[rel]
            self._fire('unreadable:%s' % name)
            raise OSError(getattr(errno, name),
                          os.strerror(getattr(errno, name)), path)
        if f is None:
            return None
        mode = f['mode']
        if mode == 'error':
            names = ERR.get(kind)
            if not names:
                return None
            name = names[f.get('a', 0) % len(names)]
            if f.get('sticky') and kind != 'close':
                self.sticky[(pr, cur[0], kind)] = f
            if kind == 'write' and f.get('b', 0):
                # partial transfer first, then the error
                self._fire('error:%s:%s' % (kind, name))
                self.errors.setdefault((pr, cur[0]), []).append(name)
                return ('partial', f['b'], name)
            if kind == 'close':
                return None
            self._fire('error:%s:%s' % (kind, name))
            self.errors.setdefault((pr, cur[0]), []).append(name)
            raise OSError(getattr(errno, name),
                          os.strerror(getattr(errno, name)), path)
        if mode == 'short':
            if kind in ('read', 'write'):
                self._fire('short:%s' % kind)
                return ('short', max(1, f.get('a', 1)))
            return None
        if mode in ('crash', 'power'):
            self._fire('%s:%s' % (mode, kind))
            self.crash_note = (pr, cur[0], kind, self.rel(path), mode)
            if kind == 'write' and f.get('b', 0):
                return ('torn', f['b'], f)
            self._crash(pr, f)
        return None

    def _crash(self, pr, f):
        if f['mode'] == 'power':
            self.power = f
            self.dead.update(['p0', 'p1', 'p2', 'p3'])
        else:
            self.dead.add(pr)
        raise SimCrash()

    def _fire(self, name):
        self.fired[name] = self.fired.get(name, 0) + 1

    # -- durability model -------------------------------------------------
    def ino(self, path):
        try:
            return real['stat'](path).st_ino
        except OSError:
            return None

    def read_real(self, path):
        try:
            with real['open'](path, 'rb') as fh:
                return fh.read()
        except OSError:
            return None

    def note_dirty(self, path):
        i = self.ino(path)
        if i is not None:
            self.dirty.add(i)
            self.durable.setdefault(i, b'')

    def note_create(self, path):
        i = self.ino(path)
        if i is not None:
            self.durable[i] = b''
            self.dirty.add(i)
        self.pending.append(('create', path))

    def note_sync(self, path):
        if os.path.isdir(path):
            self.pending = []
            return
        i = self.ino(path)
        data = self.read_real(path)
        if i is not None and data is not None:
            self.durable[i] = data
            self.dirty.discard(i)
        self.pending = []

    def power_loss(self):
        """Turn the scratch directory into what the disk holds after the power
        failure described by self.power: metadata operations since the last
        sync are lost from the end, unsynced file data is lost, empty, torn or
        kept."""
        f = self.power
        if f is None:
            return
        rng = random.Random('power/%r/%r' % (f.get('a', 0), f.get('c', 0)))
        lost = rng.randint(0, len(self.pending)) if self.pending else 0
        for op in reversed(self.pending[len(self.pending) - lost:]):
            try:
                if op[0] == 'create':
                    if os.path.exists(op[1]):
                        real['unlink'](op[1])
                elif op[0] == 'rename':
                    _, src, dst, prev = op
                    if os.path.exists(dst):
                        real['rename'](dst, src)
                    if prev is not None:
                        cur, dur = prev
                        with real['open'](dst, 'wb') as fh:
                            fh.write(dur if dur is not None else cur)
                elif op[0] == 'unlink':
                    _, path, cur, dur = op
                    if not os.path.exists(path):
                        with real['open'](path, 'wb') as fh:
                            fh.write(dur if dur is not None else cur)
                elif op[0] == 'mkdir':
                    real['rmdir'](op[1])
            except OSError:
                pass
        for d, _, files in os.walk(self.root):
            for name in sorted(files):
                p = os.path.join(d, name)
                i = self.ino(p)
                if i in self.dirty:
                    cur = self.read_real(p) or b''
                    dur = self.durable.get(i, b'')
                    how = rng.choice(['durable', 'empty', 'torn', 'torn',
                                      'kept'])
                    if how == 'durable':
                        new = dur
                    elif how == 'empty':
                        new = b''
                    elif how == 'torn':
                        new = cur[:rng.randint(0, len(cur))]
                    else:
                        new = cur
                    with real['open'](p, 'wb') as fh:
                        fh.write(new)


# --------------------------------------------------------------------------
# file objects


class SimFileIO(io.FileIO):
    """A raw file whose transfers are simulation events."""

    _sim = None

    def attach(self, fs, path):
        self._sim = fs
        self._path = path
        return self

    def write(self, b):
        fs = self._sim
        if fs is None or fs is not ACTIVE:
            return super().write(b)
        act = fs.event('write', self._path)
        mv = memoryview(b).cast('B')
        n = len(mv)
        if act is not None:
            if act[0] == 'short':
                n = min(n, act[1])
            elif act[0] in ('partial', 'torn'):
                k = act[1] % (n + 1)
                if k:
                    super().write(mv[:k])
                    fs.note_dirty(self._path)
                if act[0] == 'partial':
                    num = getattr(errno, act[2])
                    raise OSError(num, os.strerror(num), self._path)
                fs._crash(proc(), act[2])
        elif fs.wchunk:
            n = min(n, fs.wchunk)
        r = super().write(mv[:n])
        fs.note_dirty(self._path)
        return r

    def readinto(self, b):
        fs = self._sim
        if fs is None or fs is not ACTIVE:
            return super().readinto(b)
        act = fs.event('read', self._path)
        mv = memoryview(b).cast('B')
        n = len(mv)
        if act is not None and act[0] == 'short':
            n = min(n, act[1])
        elif fs.rchunk:
            n = min(n, fs.rchunk)
        data = os_read(self.fileno(), n)
        mv[:len(data)] = data
        return len(data)

    def readall(self):
        chunks = []
        while True:
            buf = bytearray(65536)
            n = self.readinto(buf)
            if not n:
                break
            chunks.append(bytes(buf[:n]))
        return b''.join(chunks)

    def read(self, size=-1):
        if size is None or size < 0:
            return self.readall()
        buf = bytearray(size)
        n = self.readinto(buf)
        return bytes(buf[:n])

    def truncate(self, size=None):
        fs = self._sim
        if fs is not None and fs is ACTIVE:
            fs.event('truncate', self._path)
            r = super().truncate(size)
            fs.note_dirty(self._path)
            return r
        return super().truncate(size)

    def close(self):
        fs = self._sim
        if fs is not None and not self.closed:
            try:
                fd = self.fileno()
            except ValueError:
                fd = None
            fs.fds.pop(fd, None)
        super().close()


def os_read(fd, n):
    return real['os_read'](fd, n)


def _writes(mode):
    return any(c in mode for c in 'wax+')


def _sim_open(file, mode='r', buffering=-1, encoding=None, errors=None,
              newline=None, closefd=True, opener=None):
    fs = ACTIVE
    if fs is None:
        return real['open'](file, mode, buffering, encoding, errors, newline,
                            closefd, opener)
    path = fs.covers(file)
    if path is None:
        if not isinstance(file, int) and isinstance(mode, str) and \
                _writes(mode):
            p = os.path.abspath(os.fsdecode(os.fspath(file)))
            if not p.startswith('/dev/'):
                fs.escapes.append(p)
                raise PermissionError(errno.EACCES, 'outside the simulation',
                                      p)
        return real['open'](file, mode, buffering, encoding, errors, newline,
                            closefd, opener)
    if not isinstance(mode, str):
        raise TypeError('invalid mode: %r' % (mode,))
    binary = 'b' in mode
    rawmode = mode.replace('b', '').replace('t', '').replace('U', '')
    writing = _writes(rawmode)
    created = False
    if not isinstance(file, int) and opener is None:
        existed = os.path.exists(path)
        fs.event('open_w' if writing else 'open_r', path)
        existed = os.path.exists(path)
        raw = SimFileIO(file, rawmode, closefd)
        created = writing and not existed
    else:
        raw = SimFileIO(file, rawmode, closefd, opener)
    if opener is not None:
        path = fs.fds.get(raw.fileno(), path)
    raw.attach(fs, path)
    fs.fds[raw.fileno()] = path
    if created:
        fs.note_create(path)
    elif writing and 'w' in rawmode:
        fs.note_dirty(path)
    try:
        if buffering == 0:
            if not binary:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        line_buffering = False
        size = buffering
        if buffering == 1 and not binary:
            line_buffering = True
            size = -1
        if size < 0 or size == 1:
            size = io.DEFAULT_BUFFER_SIZE
        if '+' in rawmode:
            buf = io.BufferedRandom(raw, size)
        elif writing:
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if binary:
            return buf
        text = io.TextIOWrapper(buf, encoding, errors, newline,
                                line_buffering)
        text.mode = mode
        return text
    except BaseException:
        raw.close()
        raise


class _ScanDir(object):
    def __init__(self, entries):
        self._it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


def _shuffle(fs, path, items):
    items = sorted(items, key=lambda e: getattr(e, 'name', e))
    if fs.perm:
        rng = random.Random('ls/%r/%s' % (fs.perm, fs.rel(path)))
        rng.shuffle(items)
    return items


def _path1(kind, name, meta):
    def shim(path, *a, **kw):
        fs = ACTIVE
        if fs is None:
            return real[name](path, *a, **kw)
        p = fs.covers(path)
        if p is None:
            ap = path if isinstance(path, int) else \
                os.path.abspath(os.fsdecode(os.fspath(path)))
            fs.escapes.append(str(ap))
            raise PermissionError(errno.EACCES, 'outside the simulation',
                                  str(ap))
        fs.event(kind, p)
        undo = None
        if meta == 'unlink':
            i = fs.ino(p)
            cur = fs.read_real(p)
            if cur is not None:
                undo = ('unlink', p, cur, fs.durable.get(i)
                        if i in fs.dirty else cur)
        r = real[name](path, *a, **kw)
        if meta == 'mkdir':
            fs.pending.append(('mkdir', p))
        elif undo:
            fs.pending.append(undo)
        elif meta == 'dirty':
            fs.note_dirty(p)
        return r
    shim.__name__ = name
    return shim


def _path2(kind, name):
    def shim(src, dst, *a, **kw):
        fs = ACTIVE
        if fs is None:
            return real[name](src, dst, *a, **kw)
        s, d = fs.covers(src), fs.covers(dst)
        if s is None or d is None:
            fs.escapes.append('%s -> %s' % (src, dst))
            raise PermissionError(errno.EACCES, 'outside the simulation',
                                  str(dst))
        fs.event(kind, d)
        prev = None
        if kind == 'rename':
            cur = fs.read_real(d)
            if cur is not None:
                i = fs.ino(d)
                prev = (cur, fs.durable.get(i) if i in fs.dirty else cur)
        r = real[name](src, dst, *a, **kw)
        if kind == 'rename':
            fs.pending.append(('rename', s, d, prev))
        return r
    shim.__name__ = name
    return shim


def install():
    if real:
        return
    real['open'] = builtins.open
    real['getcwd'] = os.getcwd
    real['os_read'] = os.read
    for n in ('open', 'write', 'fsync', 'fdatasync', 'close', 'stat',
              'listdir', 'scandir', 'replace', 'rename', 'link', 'symlink',
              'unlink', 'remove', 'rmdir', 'mkdir', 'truncate', 'ftruncate',
              'getpid', 'urandom', 'system', 'chmod', 'sync'):
        real['os_' + n if n in ('open',) else n] = getattr(os, n)

    builtins.open = _sim_open
    io.open = _sim_open
    for n, kind, meta in (('unlink', 'unlink', 'unlink'),
                          ('remove', 'unlink', 'unlink'),
                          ('rmdir', 'unlink', None),
                          ('mkdir', 'mkdir', 'mkdir'),
                          ('truncate', 'truncate', 'dirty')):
        setattr(os, n, _path1(kind, n, meta))
    for n, kind in (('replace', 'rename'), ('rename', 'rename'),
                    ('link', 'link')):
        setattr(os, n, _path2(kind, n))

    def sim_symlink(src, dst, *a, **kw):
        fs = ACTIVE
        if fs is None:
            return real['symlink'](src, dst, *a, **kw)
        d = fs.covers(dst)
        if d is None:
            fs.escapes.append(str(dst))
            raise PermissionError(errno.EACCES, 'outside the simulation', dst)
        fs.event('link', d)
        return real['symlink'](src, dst, *a, **kw)
    os.symlink = sim_symlink

    def sim_os_open(path, flags, mode=0o777, *, dir_fd=None):
        fs = ACTIVE
        if fs is None:
            return real['os_open'](path, flags, mode, dir_fd=dir_fd)
        p = fs.covers(path) if dir_fd is None else None
        acc = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)
        if p is None:
            if acc:
                fs.escapes.append(str(path))
                raise PermissionError(errno.EACCES, 'outside the simulation',
                                      str(path))
            return real['os_open'](path, flags, mode, dir_fd=dir_fd)
        fs.event('open_w' if acc else 'open_r', p)
        existed = os.path.exists(p)
        fd = real['os_open'](path, flags, mode)
        fs.fds[fd] = p
        if acc and not existed:
            fs.note_create(p)
        elif flags & os.O_TRUNC:
            fs.note_dirty(p)
        return fd
    os.open = sim_os_open

    def sim_os_write(fd, data):
        fs = ACTIVE
        if fs is None or fd not in fs.fds:
            return real['write'](fd, data)
        p = fs.fds[fd]
        act = fs.event('write', p)
        mv = memoryview(data).cast('B')
        n = len(mv)
        if act is not None:
            if act[0] == 'short':
                n = min(n, act[1])
            else:
                k = act[1] % (n + 1)
                if k:
                    real['write'](fd, mv[:k])
                    fs.note_dirty(p)
                if act[0] == 'partial':
                    num = getattr(errno, act[2])
                    raise OSError(num, os.strerror(num), p)
                fs._crash(proc(), act[2])
        r = real['write'](fd, mv[:n])
        fs.note_dirty(p)
        return r
    os.write = sim_os_write

    def sim_sync(name):
        def shim(fd):
            fs = ACTIVE
            if fs is None:
                return real[name](fd)
            num = fd if isinstance(fd, int) else fd.fileno()
            p = fs.fds.get(num)
            if p is None:
                return None
            fs.event('fsync', p)
            fs.note_sync(p)
            return None
        return shim
    os.fsync = sim_sync('fsync')
    os.fdatasync = sim_sync('fdatasync')

    def sim_close(fd):
        fs = ACTIVE
        if fs is not None:
            fs.fds.pop(fd, None)
        return real['close'](fd)
    os.close = sim_close

    def sim_listdir(path='.'):
        fs = ACTIVE
        if fs is None:
            return real['listdir'](path)
        p = fs.covers(path) if path is not None else fs.covers('.')
        if p is None:
            return real['listdir'](path)
        fs.event('listdir', p)
        return _shuffle(fs, p, real['listdir'](path))
    os.listdir = sim_listdir

    def sim_scandir(path='.'):
        fs = ACTIVE
        if fs is None:
            return real['scandir'](path)
        p = fs.covers(path)
        if p is None:
            return real['scandir'](path)
        fs.event('listdir', p)
        with real['scandir'](path) as it:
            entries = list(it)
        return _ScanDir(_shuffle(fs, p, entries))
    os.scandir = sim_scandir

    def sim_getpid():
        if ACTIVE is None:
            return real['getpid']()
        return 4000 + int(proc()[1:])
    os.getpid = sim_getpid

    def sim_urandom(n):
        if ACTIVE is None:
            return real['urandom'](n)
        fs = ACTIVE
        fs.names['u'] = fs.names.get('u', 0) + 1
        r = random.Random('urandom/%s/%s/%d' % (fs.boot, proc(),
                                                fs.names['u']))
        return bytes(r.getrandbits(8) for _ in range(n))
    os.urandom = sim_urandom

    def sim_system(cmd):
        if ACTIVE is None:
            return real['system'](cmd)
        ACTIVE.escapes.append('system: %s' % cmd)
        return 0
    os.system = sim_system

    try:
        shutil._USE_CP_SENDFILE = False
    except AttributeError:
        pass


class _Names(object):
    """Deterministic replacement of tempfile's random candidate names."""

    def __init__(self):
        self.n = 0

    def __iter__(self):
        return self

    def __next__(self):
        self.n += 1
        return 'sim%05d' % self.n


def activate(fs):
    global ACTIVE
    ACTIVE = fs
    tempfile._name_sequence = _Names()
    tempfile.tempdir = os.path.join(fs.root, 'tmp')
    if not os.path.isdir(tempfile.tempdir):
        real['mkdir'](tempfile.tempdir)
    random.seed(fs.boot)
    try:
        import numpy as np
        np.random.seed(int(fs.boot[:7], 16))
    except ImportError:
        pass


def deactivate():
    global ACTIVE
    ACTIVE = None


def quiet_unraisable():
    """Objects of a killed process flush into nowhere when collected."""
    def hook(u):
        if isinstance(u.exc_value, (SimCrash, OSError, ValueError)):
            return
        sys.__unraisablehook__(u)
    sys.unraisablehook = hook
