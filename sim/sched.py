"""Deterministic scheduler: real threads, one of which runs at a time.

A task gives up control only at a yield point: a line (or bytecode) of the
package under test, a file system event, a lock it cannot take, or a sleep.
Which yield points are preemptions, and who runs next, is part of the plan.
"""
import os
import sys
import threading
import time

ACTIVE = None
_real = {}


class Deadlock(Exception):
    pass


class Stuck(BaseException):
    """Raised inside tasks that have to be torn down."""


class Task(object):
    def __init__(self, sched, idx, fn, proc):
        self.idx = idx
        self.fn = fn
        self.proc = proc
        self.sem = threading.Semaphore(0)
        self.done = False
        self.exc = None
        self.value = None
        self.wake = None        # virtual wake-up time
        self.waiting = None     # lock we are blocked on
        self.lines = 0


class Scheduler(object):
    """preempt: list of [step, pick].  At global yield-point number `step` the
    running task is replaced by the pick-th other runnable task."""

    def __init__(self, preempt=(), pkg=None, skip=(), trace=True, opcodes=False,
                 max_steps=3000000, first=0, aborts=(), fresh=None):
        self.preempt = {}
        for s, p in preempt:
            self.preempt[s] = p
        self.pkg = pkg
        self.skip = tuple(skip)
        self.trace = trace
        self.opcodes = opcodes
        self.max_steps = max_steps
        self.first = first
        self.steps = 0
        self.switches = []
        self.tasks = []
        self.clock = 0.0
        self.finished = threading.Semaphore(0)
        self.current = None
        self.failure = None
        self.sites = 0
        # [[task, n, exception]]: the n-th line that the task executes fails
        self.aborts = {(t, n): e for t, n, e in aborts}
        self.aborted = []
        self.on_abort = None
        # only the first `fresh` times that a task is at a line count
        self.fresh = fresh
        self.seen = {}

    def spawn(self, fn, proc='p0'):
        t = Task(self, len(self.tasks), fn, proc)
        self.tasks.append(t)
        return t

    def _body(self, t):
        t.sem.acquire()
        threading.current_thread().sim_proc = t.proc
        threading.current_thread().sim_task = t
        try:
            t.value = t.fn()
        except BaseException as e:          # recorded, judged by the oracle
            t.exc = e
        t.done = True
        self._next_after_done()

    def _runnable(self, but=None):
        return [t for t in self.tasks if not t.done and t is not but and
                t.wake is None and (t.waiting is None or
                                    t.waiting.sim_free(t))]

    def _advance(self):
        """Nothing runnable: jump the virtual clock to the next wake-up."""
        sleepers = [t for t in self.tasks if not t.done and
                    t.wake is not None]
        if not sleepers:
            return False
        t = min(sleepers, key=lambda x: (x.wake, x.idx))
        self.clock = max(self.clock, t.wake)
        t.wake = None
        return True

    def _pick(self, cands, n):
        return cands[n % len(cands)]

    def _next_after_done(self):
        while True:
            r = self._runnable()
            if r:
                nxt = r[0]
                self.current = nxt
                self.switches.append((self.steps, nxt.idx))
                nxt.sem.release()
                return
            if all(t.done for t in self.tasks):
                self.finished.release()
                return
            if not self._advance():
                self.failure = Deadlock('all remaining tasks are blocked')
                self.finished.release()
                return

    def _switch(self, me, to):
        self.current = to
        self.switches.append((self.steps, to.idx))
        to.sem.release()
        me.sem.acquire()
        if self.failure is not None:
            raise Stuck()

    def point(self, kind):
        me = getattr(threading.current_thread(), 'sim_task', None)
        if me is None or self.current is not me:
            return
        self.steps += 1
        if self.steps > self.max_steps:
            raise Stuck('step budget exhausted')
        if kind == 'line' and self.aborts:
            me.lines += 1
            e = self.aborts.pop((me.idx, me.lines), None)
            if e is not None:
                self.aborted.append((me.idx, me.lines))
                if self.on_abort is not None:
                    self.on_abort(me)
                raise e('injected')
        p = self.preempt.get(self.steps)
        if p is None:
            return
        r = self._runnable(but=me)
        if r:
            self._switch(me, self._pick(r, p))

    def _line(self, code, x):
        if self.fresh is not None:
            me = self.current
            k = (me and me.idx, code, x)
            n = self.seen[k] = self.seen.get(k, 0) + 1
            if n > self.fresh:
                return
        self.point('line')

    def block(self, me):
        """The current task cannot continue (lock or sleep)."""
        while True:
            r = self._runnable(but=me)
            ready = (me.wake is None and
                     (me.waiting is None or me.waiting.sim_free(me)))
            if ready and not r:
                return
            if r:
                self._switch(me, r[0])
                if me.wake is None and (me.waiting is None or
                                        me.waiting.sim_free(me)):
                    return
                continue
            if ready:
                return
            if not self._advance():
                self.failure = Deadlock('deadlock')
                self.finished.release()
                me.sem.acquire()
                raise Stuck()

    def sleep(self, secs):
        me = getattr(threading.current_thread(), 'sim_task', None)
        if me is None:
            self.clock += secs
            return
        me.wake = self.clock + max(0.0, secs)
        self.block(me)

    def run(self, wall=120.0):
        global ACTIVE
        old = threading.stack_size()
        threads = []
        ACTIVE = self
        if self.trace:
            watch(self.pkg, self.skip, self._line, self.opcodes)
        try:
            for t in self.tasks:
                th = threading.Thread(target=self._body, args=(t,),
                                      daemon=True)
                threads.append(th)
                th.start()
            if self.tasks:
                f = self.tasks[self.first % len(self.tasks)]
                self.current = f
                f.sem.release()
                if not self.finished.acquire(timeout=wall):
                    raise RuntimeError('scheduler wall timeout')
        finally:
            ACTIVE = None
            unwatch()
            threading.stack_size(old)
        if self.failure is None:
            for th in threads:
                th.join(5)
        return self


def yield_point(kind):
    s = ACTIVE
    if s is not None:
        s.point(kind)


class SimLock(object):
    """threading.Lock/RLock for code of the package under test."""

    def __init__(self, reentrant):
        self._re = reentrant
        self._owner = None
        self._count = 0
        self._reallock = (_real['RLock'] if reentrant else _real['Lock'])()

    def sim_free(self, task):
        return self._owner is None or (self._re and self._owner is task)

    def acquire(self, blocking=True, timeout=-1):
        s = ACTIVE
        me = getattr(threading.current_thread(), 'sim_task', None)
        if s is None or me is None:
            return self._reallock.acquire(blocking, timeout)
        s.point('lock')
        while not self.sim_free(me):
            if not blocking:
                return False
            me.waiting = self
            s.block(me)
        me.waiting = None
        self._owner = me
        self._count += 1
        return True

    def release(self):
        s = ACTIVE
        me = getattr(threading.current_thread(), 'sim_task', None)
        if s is None or me is None or self._owner is None:
            return self._reallock.release()
        self._count -= 1
        if self._count <= 0:
            self._owner = None
            self._count = 0
        s.point('unlock')

    def locked(self):
        return self._owner is not None or (
            hasattr(self._reallock, 'locked') and self._reallock.locked())

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


def _from_package(depth=2):
    from . import env
    try:
        fn = sys._getframe(depth).f_code.co_filename
    except ValueError:
        return False
    return fn.startswith(env.PKG)


class _LockFactory(object):
    """Stands in for threading.Lock; an instance, so that it is not bound
    when it is kept as a class attribute."""

    def __init__(self, name):
        self.name = name

    def __call__(self, *args):
        return SimLock(self.name == 'RLock') if _from_package() else \
            _real[self.name](*args)

    def __or__(self, other):
        return other

    __ror__ = __or__


def install():
    if _real:
        return
    _real['Lock'] = threading.Lock
    _real['RLock'] = threading.RLock
    _real['sleep'] = time.sleep
    _real['time'] = time.time
    _real['monotonic'] = time.monotonic

    threading.Lock = _LockFactory('Lock')
    threading.RLock = _LockFactory('RLock')

    def sleep(secs):
        s = ACTIVE
        if s is not None:
            return s.sleep(secs)
        from . import clock
        if clock.ACTIVE:
            clock.now += secs
            clock.slept += secs
            return None
        return _real['sleep'](secs)
    time.sleep = sleep

    def vclock(name):
        def shim():
            if _from_package():
                from . import clock
                s = ACTIVE
                return 1.7e9 + (s.clock if s is not None else clock.now)
            return _real[name]()
        return shim
    time.time = vclock('time')
    time.monotonic = vclock('monotonic')


# every line the package executes ---------------------------------------------

TOOL = 3
_watched = []


_codes = []


def index():
    """Finds all code objects of the package.  Has to come before gc.freeze(),
    which hides them."""
    import gc
    import types
    from . import env
    out, todo = {}, []
    for o in gc.get_objects():
        if type(o) is types.FunctionType:
            todo.append(o.__code__)
    while todo:
        c = todo.pop()
        if id(c) in out or not c.co_filename.startswith(env.PKG + os.sep):
            continue
        out[id(c)] = c
        todo += [k for k in c.co_consts if isinstance(k, types.CodeType)]
    _codes[:] = out.values()
    if len(_codes) < 50:
        raise RuntimeError('only %d functions found' % len(_codes))


def codes(pkg, skip=()):
    if not _codes:
        index()
    return [c for c in _codes if c.co_filename.startswith(pkg) and
            not c.co_filename.endswith(tuple(skip))]


def watch(pkg, skip, cb, opcodes=False):
    """Calls cb(code, line) in the executing thread before every line."""
    m = sys.monitoring
    # the generated equations have thousands of lines and no state
    skip = tuple(skip) + ('_mooreriderlean2012.py',)
    ev = m.events.INSTRUCTION if opcodes else m.events.LINE
    m.use_tool_id(TOOL, 'bpsim')
    m.register_callback(TOOL, ev, cb)
    for c in codes(pkg, skip):
        m.set_local_events(TOOL, c, ev)
        _watched.append((c, ev))


def unwatch():
    m = sys.monitoring
    if m.get_tool(TOOL) is None:
        return
    for c, ev in _watched:
        m.set_local_events(TOOL, c, 0)
        m.register_callback(TOOL, ev, None)
    del _watched[:]
    m.free_tool_id(TOOL)


class Abort(object):
    """Makes the n-th line that fn executes inside the package fail with exc
    (MemoryError: a failing allocation; KeyboardInterrupt: Ctrl-C)."""

    def __init__(self, pkg, n, exc):
        self.pkg, self.n, self.exc = pkg, n, exc
        self.lines = 0
        self.fired = False

    def _line(self, code, line):
        self.lines += 1
        if self.lines == self.n and not self.fired:
            self.fired = True
            raise self.exc('injected')

    def __call__(self, fn, *args, **kw):
        watch(self.pkg, (), self._line)
        try:
            return fn(*args, **kw)
        finally:
            unwatch()


# names used by sim.core when it needs the real clock
def wall():
    return _real.get('monotonic', time.monotonic)()


_ = os
