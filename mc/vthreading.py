"""Cooperative scheduler: runs the real library code on virtual threads under explored schedules.

Every virtual thread is an OS thread, but exactly one runs at a time; control moves only at scheduling
points (lock/event/thread operations, serial port operations, sleeps, and - through hooks installed by
the loader - accesses to instance attributes shared between threads). The clock is virtual. Every
decision is taken by `Scheduler.pick`, so an execution is a function of its choice list."""
import _thread
import collections
import sys
import threading as _rt      # the real one
import time as _real_time
import types
import weakref

S = None                      # current Scheduler, if an execution is in progress
HORIZON = 3600.0              # virtual seconds
MAX_STEPS = 60000


class Abort(BaseException):
    """Raised inside virtual threads when an execution is torn down."""


class Deadlock(Exception):
    pass


class VT(object):
    __slots__ = ('id', 'name', 'sem', 'pred', 'deadline', 'done', 'obj', 'idle', 'timed_out', 'started', 'osid', 'prio', 'weak')

    def __init__(self, id, name, obj):
        self.id, self.name, self.obj = id, name, obj
        self.sem = _rt.Lock()
        self.sem.acquire()
        self.pred = None
        self.deadline = None
        self.done = False
        self.idle = False
        self.timed_out = False
        self.weak = False


# ------------------------------------------------------------------------------------------ OS thread pool
_idle_workers = []


class _Worker(object):
    def __init__(self):
        self.sem = _rt.Lock()
        self.sem.acquire()
        self.job = None
        _thread.start_new_thread(self.loop, ())

    def loop(self):
        while True:
            self.sem.acquire()
            job = self.job
            self.job = None
            job()
            _idle_workers.append(self)

    def run(self, job):
        self.job = job
        self.sem.release()


def _os_run(job):
    w = _idle_workers.pop() if _idle_workers else _Worker()
    w.run(job)


# ------------------------------------------------------------------------------------------ scheduler

class Point(object):
    __slots__ = ('n', 'cost', 'kind')

    def __init__(self, n, cost, kind):
        self.n, self.cost, self.kind = n, cost, kind


class Scheduler(object):
    def __init__(self, prefix, shared, early_time=False, trace=False, discover=None, max_steps=MAX_STEPS):
        self.prefix = prefix
        self.max_steps = max_steps
        self.choices = []
        self.points = []
        self.shared = shared              # attribute names that are scheduling points
        self.discover = discover          # dict attr -> [set(thread ids), written?]
        self.early_time = early_time
        self.exploring = False
        self.now = 1000.0
        self.threads = []
        self.current = None
        self.finished = _rt.Lock()
        self.finished.acquire()
        self.aborting = False
        self.error = None                 # deadlock / livelock description
        self.uncaught = []
        self.harness_fault = None
        self.steps = 0
        self.transitions = 0
        self.trace = [] if trace else None
        self.by_os = {}
        self.live = 0
        self.horizon = self.now + HORIZON
        self.timers = []

    # -- choice -------------------------------------------------------------------------------
    def pick(self, n, cost, kind):
        """Choose one of n alternatives; alternatives 1.. cost `cost` deviations each."""
        if n == 1 or not self.exploring:
            return 0
        i = len(self.choices)
        if i < len(self.prefix):
            c = self.prefix[i]
            if c >= n:
                raise RuntimeError('replay diverged: choice %d of %d at %d (%s)' % (c, n, i, kind))
        else:
            c = 0
        self.choices.append(c)
        self.points.append(Point(n, cost, kind))
        return c

    # -- thread management -----------------------------------------------------------------------
    def me(self):
        return self.by_os.get(_thread.get_ident())

    def spawn(self, fn, name, obj):
        vt = VT(len(self.threads), name, obj)
        self.threads.append(vt)
        self.live += 1

        def job():
            vt.sem.acquire()
            self.by_os[_thread.get_ident()] = vt
            try:
                if not self.aborting:
                    fn()
            except Abort:
                pass
            except SystemExit:
                pass
            except BaseException as e:
                if not self.aborting:
                    self.uncaught.append((vt.name, e))
            finally:
                self.by_os.pop(_thread.get_ident(), None)
                vt.done = True
                self.live -= 1
                if self.aborting:
                    self._abort_next()
                else:
                    try:
                        self._dispatch(vt)
                    except Abort:
                        self._abort_next()
        _os_run(job)
        return vt

    def _abort_next(self):
        for t in self.threads:
            if not t.done:
                t.sem.release()
                return
        self.finished.release()

    def fail(self, what):
        if self.error is None:
            self.error = what

    def begin_abort(self):
        """Tear the execution down; called from the running thread, which then unwinds."""
        self.aborting = True

    # -- scheduling -----------------------------------------------------------------------------
    def _enabled(self, t):
        if t.done:
            return False
        if t.pred is None:
            return True
        if t.idle:
            return False
        if t.pred():
            return True
        if t.deadline is not None and t.deadline <= self.now:
            return True
        return False

    def _next(self, cur):
        """Pick the thread to run next. cur: the thread at a scheduling point (maybe blocked or done)."""
        while True:
            self.steps += 1
            if self.steps > self.max_steps:
                self.fail('no progress: more than %d steps in one execution (livelock)' % self.max_steps)
                return None
            en = []
            n = len(self.threads)
            start = cur.id if cur is not None else 0
            for k in range(n):
                t = self.threads[(start + k) % n]
                if self._enabled(t):
                    en.append(t)
            if not en:
                # nobody can run: an idle waiter proceeds, else time moves
                idle = [t for t in self.threads if not t.done and t.idle]
                if idle:
                    return idle[0]
                if not self._tick():
                    alive = [t.name for t in self.threads if not t.done]
                    self.fail('deadlock: threads %s are blocked forever' % ', '.join(alive))
                    return None
                continue
            nalt = len(en)
            tick = False
            if self.early_time and self.exploring and self._pending_deadline() is not None:
                nalt += 1
                tick = True
            c = self.pick(nalt, 1, 'sched')
            if tick and c == nalt - 1:
                self._tick()
                continue
            return en[c]

    def _pending_deadline(self):
        d = None
        for t in self.threads:
            if not t.done and t.pred is not None and t.deadline is not None and t.deadline > self.now:
                if d is None or t.deadline < d:
                    d = t.deadline
        return d

    def _tick(self):
        d = self._pending_deadline()
        if d is None:
            return False
        if d > self.horizon:
            self.fail('blocked: nothing but waiting for %d virtual seconds; blocked threads: %s' % (
                HORIZON, ', '.join(t.name for t in self.threads if not t.done)))
            return False
        self.now = d
        return True

    def _dispatch(self, cur):
        """Hand control to the chosen thread; returns when `cur` is scheduled again (unless done)."""
        nxt = self._next(cur)
        if nxt is None:
            self.begin_abort()
            if cur.done:
                self._abort_next()
                return
            raise Abort()
        if nxt is cur:
            return
        self.transitions += 1
        self.current = nxt
        nxt.sem.release()
        if cur.done:
            return
        cur.sem.acquire()
        if self.aborting:
            raise Abort()

    def point(self, kind=None):
        if self.aborting:
            raise Abort()
        cur = self.current
        if self.trace is not None:
            self.trace.append((cur.name, kind))
        if not self.exploring:
            self.steps += 1
            return                       # outside the exploration window only blocking switches
        self._dispatch(cur)

    def block(self, pred, timeout=None, kind=None):
        """Block the running thread until pred() or timeout (virtual seconds). Returns pred()."""
        if self.aborting:
            raise Abort()
        cur = self.current
        if self.trace is not None:
            self.trace.append((cur.name, 'block ' + str(kind)))
        cur.pred = pred
        cur.deadline = None if timeout is None else self.now + max(0, timeout)
        try:
            if self.exploring or not (pred() or (cur.deadline is not None and cur.deadline <= self.now)):
                self._dispatch(cur)
            else:
                self.steps += 1
        finally:
            cur.pred = None
            cur.deadline = None
        return pred()

    def quiesce(self):
        """Block until no other thread can run without time passing."""
        cur = self.current
        cur.pred = lambda: False
        cur.idle = True
        try:
            self._dispatch(cur)
        finally:
            cur.pred = None
            cur.idle = False


def active():
    return S is not None and not S.aborting and S.current is not None and S.me() is S.current


# ------------------------------------------------------------------------------------------ fake threading

class Lock(object):
    def __init__(self):
        self._owner = None
        self._locked = False

    def acquire(self, blocking=True, timeout=-1):
        s = S
        if s is None or s.me() is None:
            self._locked = True
            return True
        s.point('lock.acquire')
        if not blocking:
            if self._locked:
                return False
        elif self._locked:
            if not s.block(lambda: not self._locked, None if timeout is None or timeout < 0 else timeout, 'lock'):
                return False
        self._locked = True
        self._owner = s.current
        return True

    def release(self):
        if not self._locked:
            if S is not None and S.aborting:
                return
            raise RuntimeError('release unlocked lock')
        self._locked = False
        self._owner = None
        if S is not None and not S.aborting and S.me() is not None:
            S.point('lock.release')

    def locked(self):
        return self._locked

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


class RLock(object):
    def __init__(self):
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        s = S
        if s is None or s.me() is None:
            self._count += 1
            self._owner = self._owner or 'outside'
            return True
        me = s.current
        if self._owner is me:
            self._count += 1
            return True
        s.point('rlock.acquire')
        if self._owner is not None:
            if not blocking:
                return False
            if not s.block(lambda: self._owner is None, None if timeout is None or timeout < 0 else timeout, 'rlock'):
                return False
        self._owner = me
        self._count = 1
        return True

    def release(self):
        s = S
        if s is not None and s.aborting:
            return
        if s is not None and s.me() is not None and self._owner is not s.current:
            raise RuntimeError('cannot release un-acquired lock')
        self._count -= 1
        if self._count == 0:
            self._owner = None
            if s is not None and s.me() is not None:
                s.point('rlock.release')

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._owner is not None and S is not None and self._owner is S.current

    def _release_save(self):
        c = self._count
        self._count = 0
        self._owner = None
        return c

    def _acquire_restore(self, c):
        S.block(lambda: self._owner is None, None, 'rlock')
        self._owner = S.current
        self._count = c


class Condition(object):
    def __init__(self, lock=None):
        self._lock = lock if lock is not None else RLock()
        self.acquire = self._lock.acquire
        self.release = self._lock.release
        self._waiters = []

    def __enter__(self):
        return self._lock.__enter__()

    def __exit__(self, *a):
        return self._lock.__exit__(*a)

    def wait(self, timeout=None):
        tok = [False]
        self._waiters.append(tok)
        if hasattr(self._lock, '_release_save'):
            saved = self._lock._release_save()
        else:
            self._lock._locked = False
            saved = None
        try:
            r = S.block(lambda: tok[0], timeout, 'cond')
        finally:
            if not S.aborting:
                if saved is not None:
                    self._lock._acquire_restore(saved)
                else:
                    self._lock.acquire()
        if not r and tok in self._waiters:
            self._waiters.remove(tok)
        return r

    def wait_for(self, predicate, timeout=None):
        end = None if timeout is None else S.now + timeout
        r = predicate()
        while not r:
            left = None if end is None else end - S.now
            if left is not None and left <= 0:
                break
            self.wait(left)
            r = predicate()
        return r

    def notify(self, n=1):
        for _ in range(n):
            if self._waiters:
                self._waiters.pop(0)[0] = True
        if active():
            S.point('notify')

    def notify_all(self):
        self.notify(len(self._waiters))

    notifyAll = notify_all


class Event(object):
    def __init__(self):
        self._flag = False

    def is_set(self):
        if active():
            S.point('event.is_set')
        return self._flag

    isSet = is_set

    def set(self):
        if active():
            S.point('event.set')
        self._flag = True

    def clear(self):
        if active():
            S.point('event.clear')
        self._flag = False

    def wait(self, timeout=None):
        if not active():
            if S is not None and S.aborting:
                raise Abort()
            return self._flag
        return bool(S.block(lambda: self._flag, timeout, 'event.wait'))


class Semaphore(object):
    def __init__(self, value=1):
        if value < 0:
            raise ValueError('semaphore initial value must be >= 0')
        self._value = value

    def acquire(self, blocking=True, timeout=None):
        if active():
            S.point('sem.acquire')
            if self._value <= 0:
                if not blocking:
                    return False
                if not S.block(lambda: self._value > 0, timeout, 'sem'):
                    return False
        self._value -= 1
        return True

    def release(self, n=1):
        self._value += n
        if active():
            S.point('sem.release')

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


class BoundedSemaphore(Semaphore):
    pass


_counter = [0]


class Thread(object):
    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        self._target, self._args, self._kwargs = target, args, dict(kwargs or {})
        if S is not None:
            self.name = name or 'Thread-%d' % len(S.threads)
        else:
            _counter[0] += 1
            self.name = name or 'Thread-x%d' % _counter[0]
        self.daemon = bool(daemon)
        self._vt = None
        self._real_started = False

    def start(self):
        if self._vt is not None or self._real_started:
            raise RuntimeError('threads can only be started once')
        if S is None or S.me() is None:
            raise RuntimeError('thread started outside an execution')
        self._vt = S.spawn(self._bootstrap, self.name, self)
        S.point('thread.start')

    def _bootstrap(self):
        self.run()

    def run(self):
        try:
            if self._target is not None:
                self._target(*self._args, **self._kwargs)
        finally:
            self._target = self._args = self._kwargs = None

    def join(self, timeout=None):
        if self._vt is None:
            raise RuntimeError('cannot join thread before it is started')
        if S.current is self._vt:
            raise RuntimeError('cannot join current thread')
        vt = self._vt
        S.block(lambda: vt.done, timeout, 'join')

    def is_alive(self):
        if active():
            S.point('is_alive')
        return self._vt is not None and not self._vt.done

    isAlive = is_alive

    @property
    def ident(self):
        return None if self._vt is None else self._vt.id + 1

    native_id = ident

    def setDaemon(self, d):
        self.daemon = d

    def isDaemon(self):
        return self.daemon

    def getName(self):
        return self.name

    def setName(self, n):
        self.name = n


class Timer(Thread):
    def __init__(self, interval, function, args=None, kwargs=None):
        Thread.__init__(self)
        self.interval, self.function = interval, function
        self.args, self.kwargs = args or [], kwargs or {}
        self._fin = Event()

    def cancel(self):
        self._fin.set()

    def run(self):
        self._fin.wait(self.interval)
        if not self._fin._flag:
            self.function(*self.args, **self.kwargs)
        self._fin._flag = True


class _Main(object):
    name = 'MainThread'
    daemon = False
    ident = 1

    def is_alive(self):
        return True

    def getName(self):
        return self.name


_main_obj = _Main()


def current_thread():
    if S is not None:
        vt = S.me()
        if vt is not None and vt.obj is not None:
            return vt.obj
    return _main_obj


currentThread = current_thread


def get_ident():
    if S is not None and S.me() is not None:
        return S.me().id + 1
    return 0


def main_thread():
    return _main_obj


def active_count():
    return S.live if S is not None else 1


def enumerate_threads():
    return [t.obj for t in S.threads if not t.done] if S is not None else [_main_obj]


class local(object):
    """Thread-local storage keyed by virtual thread."""

    def __init__(self):
        object.__setattr__(self, '_d', {})

    def _ns(self):
        return object.__getattribute__(self, '_d').setdefault(get_ident(), {})

    def __getattribute__(self, k):
        if k.startswith('__') or k == '_ns':
            return object.__getattribute__(self, k)
        ns = object.__getattribute__(self, '_ns')()
        if k in ns:
            return ns[k]
        return object.__getattribute__(self, k)

    def __setattr__(self, k, v):
        self._ns()[k] = v


def _time():
    return S.now if S is not None else 1000.0


def _sleep(sec):
    if active():
        S.block(lambda: False, sec, 'sleep')


def make_threading():
    m = types.ModuleType('threading')
    for n in ('Lock RLock Condition Event Semaphore BoundedSemaphore Thread Timer current_thread currentThread '
              'get_ident main_thread active_count local').split():
        setattr(m, n, globals()[n])
    m.enumerate = enumerate_threads
    m.activeCount = active_count
    m.get_native_id = get_ident
    m.ThreadError = RuntimeError
    m.TIMEOUT_MAX = _rt.TIMEOUT_MAX
    m._shutdown = lambda: None
    m._register_atexit = lambda *a, **k: None
    m.excepthook = lambda *a: None
    m.__file__ = __file__
    return m


def make_time():
    m = types.ModuleType('time')
    for n in dir(_real_time):
        if not n.startswith('__'):
            setattr(m, n, getattr(_real_time, n))
    m.time = m.monotonic = m.perf_counter = m.process_time = _time
    m.time_ns = m.monotonic_ns = m.perf_counter_ns = lambda: int(_time() * 1e9)
    m.sleep = _sleep
    return m


# ------------------------------------------------------------------------------------------ attribute hooks

_MUTABLE = (list, dict, set, bytearray, collections.deque, weakref.WeakValueDictionary, weakref.WeakKeyDictionary, weakref.WeakSet)


def instrument_class(cls):
    """Make accesses to instance attributes of cls (and subclasses) scheduling points."""
    oget = cls.__getattribute__
    oset = cls.__setattr__

    def ga(self, name):
        s = S
        if s is not None and s.exploring and not s.aborting:
            if name in s.shared:
                if s.me() is s.current:
                    s.point(('get', name))
            elif s.discover is not None and s.current is not None and not name.startswith('__'):
                d = object.__getattribute__(self, '__dict__')
                if name in d:
                    r = s.discover.setdefault(name, [set(), False])
                    r[0].add(s.current.id)
                    if isinstance(d[name], _MUTABLE):
                        r[1] = True
        return oget(self, name)

    def sa(self, name, value):
        s = S
        if s is not None and s.exploring and not s.aborting:
            if name in s.shared:
                if s.me() is s.current:
                    s.point(('set', name))
            elif s.discover is not None and s.current is not None:
                r = s.discover.setdefault(name, [set(), False])
                r[0].add(s.current.id)
                r[1] = True
        return oset(self, name, value)

    cls.__getattribute__ = ga
    cls.__setattr__ = sa
