"""One simulated machine session: a process image of the package running on a
simulated disk, with a simulated user at the keyboard."""
import contextlib
import io as _io
import os
import shutil
import sys

from . import clock, core, fs as simfs

PROMPT_CAP = 60


class User(object):
    """Standard input.  `answers` is the list of replies; 'EOF' closes the
    terminal, 'INT' is Ctrl-C.  When the list is used up the user says n."""
    encoding = 'utf-8'
    errors = 'strict'
    closed = False

    def __init__(self, answers):
        self.answers = list(answers)
        self.asked = 0
        self.given = []
        self.log = None         # called as log(reply) for every reply

    def fileno(self):
        raise _io.UnsupportedOperation('fileno')

    def isatty(self):
        return True

    def readline(self, *a):
        self.asked += 1
        if self.asked > PROMPT_CAP:
            raise core.Hang('the user was asked more than %d times' %
                            PROMPT_CAP)
        ans = self.answers.pop(0) if self.answers else 'n'
        self.given.append(ans)
        if self.log is not None:
            self.log(ans)
        if ans == 'EOF':
            return ''
        if ans == 'INT':
            raise KeyboardInterrupt()
        return ans + '\n'

    def read(self, *a):
        return self.readline()

    def __iter__(self):
        return self

    def __next__(self):
        line = self.readline()
        if not line:
            raise StopIteration
        return line

    def close(self):
        pass


class Session(object):
    """Result of a session (picklable)."""

    def __init__(self):
        self.ops = {}           # label -> ('ok', value) | ('exc', type, msg)
        self.order = []
        self.crashed = None
        self.events = []
        self.fired = {}
        self.errors = {}
        self.escapes = []
        self.stdout = ''
        self.asked = {}         # label -> replies given
        self.snaps = []
        self.replies = []       # (label, events so far, prompt, reply)


class Ctx(object):
    def __init__(self, fs, user, session):
        self.fs = fs
        self.user = user
        self.s = session
        self.mark = lambda: None

    def op(self, label, fn, *args, **kw):
        """Run one workload operation; exceptions of the code under test are
        outcomes, not errors of the harness."""
        self.fs.label(label)
        n0 = len(self.user.given)
        try:
            v = fn(*args, **kw)
        except (simfs.SimCrash, core.Hang):
            self.s.asked[label] = self.user.given[n0:]
            raise
        except (Exception, KeyboardInterrupt, SystemExit) as e:
            out = ('exc', type(e).__name__, str(e)[:300],
                   isinstance(e, OSError))
        else:
            out = ('ok', v)
        self.s.ops[label] = out
        self.s.order.append(label)
        self.s.asked[label] = self.user.given[n0:]
        self.fs.label('-')
        return out

    def warm(self, fn, answers=()):
        """Run something earlier in the life of the process: with a user of
        its own, without faults, and whatever comes of it."""
        u = self.user
        keep = u.answers, u.asked, u.given, u.log
        u.answers, u.asked, u.given, u.log = list(answers), 0, [], None
        self.fs.label('~')
        try:
            return fn()
        except (Exception, KeyboardInterrupt, SystemExit):
            return None
        finally:
            u.answers, u.asked, u.given, u.log = keep
            self.fs.label('-')
            self.mark()


def session(root, body, faults=(), user=(), wchunk=None, rchunk=None, perm=0,
            cwd=None, deny=None):
    """Runs body(ctx) on the simulated disk rooted at `root`.  To be called in
    a fresh phase."""
    simfs.quiet_unraisable()
    s = Session()
    fs = simfs.SimFS(root, faults, wchunk=wchunk, rchunk=rchunk, perm=perm,
                     deny=deny)
    u = User(user)
    old = sys.stdin, sys.stdout, sys.stderr
    buf = _io.StringIO()
    pos = [0]

    def log(ans):
        txt = buf.getvalue()
        s.replies.append((fs.cur.get(simfs.proc(), ['-'])[0], len(fs.events),
                          txt[pos[0]:], ans))
        pos[0] = len(txt)
    u.log = log
    here = os.getcwd()
    os.chdir(cwd or root)
    simfs.activate(fs)
    clock.ACTIVE = True
    sys.stdin, sys.stdout, sys.stderr = u, buf, _io.StringIO()
    ctx = Ctx(fs, u, s)
    ctx.mark = lambda: pos.__setitem__(0, len(buf.getvalue()))
    try:
        body(ctx)
    except simfs.SimCrash:
        s.crashed = fs.crash_note or ('?', '?', '?', '?', '?')
    finally:
        sys.stdin, sys.stdout, sys.stderr = old
        simfs.deactivate()
        clock.ACTIVE = False
        os.chdir(here)
    if fs.power is not None:
        fs.power_loss()
    s.events = fs.events
    s.fired = fs.fired
    s.errors = fs.errors
    s.escapes = fs.escapes
    s.stdout = buf.getvalue()
    return s


def account(run, s):
    """Book a session's faults and events into the run."""
    for k, v in sorted(s.fired.items()):
        run.fault(k, v)
    run.steps += len(s.events)
    for e in s.events:
        run.note('%s %s %s %s %s' % e)
    if s.crashed:
        run.note('crashed', *s.crashed)
    for label in s.order:
        run.note('->', label, repr(s.ops[label])[:400])


def tree(root, skip=('tmp',)):
    """{relative path: bytes} of every file below root."""
    out = {}
    for d, dirs, files in os.walk(root):
        if d == root:
            dirs[:] = [x for x in dirs if x not in skip]
        dirs.sort()
        for f in files:
            p = os.path.join(d, f)
            try:
                with open(p, 'rb') as fh:
                    out[os.path.relpath(p, root)] = fh.read()
            except OSError:
                out[os.path.relpath(p, root)] = None
    return out


def put(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'wb' if isinstance(data, bytes) else 'w') as f:
        f.write(data)


def clone(src, dst):
    shutil.copytree(src, dst, symlinks=True)
    return dst


@contextlib.contextmanager
def quiet(user=()):
    """Capture stdout and provide a user, without a simulated disk."""
    old = sys.stdin, sys.stdout, sys.stderr
    buf = _io.StringIO()
    sys.stdin, sys.stdout, sys.stderr = User(user), buf, _io.StringIO()
    try:
        yield buf
    finally:
        sys.stdin, sys.stdout, sys.stderr = old
