"""Controlled scheduler: stateless model checking of real Python threads.

`install()` replaces the blocking primitives of `threading` and the clock functions of `time` by controlled versions; it must
run before the code under test is imported. Outside an execution ("solo" mode) the primitives work for one thread: an
acquire that could never succeed raises Hang, sleeping advances a virtual clock.

Inside an execution (see `Execution`) exactly one controlled thread runs at a time. Scheduling points: before every
synchronisation operation, and (granularity 'line' / 'instr') before every source line / shared-access instruction of the
code under test, by sys.monitoring events. At each point the scheduler consults the deviation map {point number: choice};
anything not in the map takes choice 0 (keep running the current thread; lowest thread id when it blocks).
"""
import _thread
import dis
import gc
import os
import sys
import threading
import time

# ------------------------------------------------------------------ originals
real_sleep = time.sleep
real_time = time.time
real_monotonic = time.monotonic
real_perf_counter = time.perf_counter
real_get_ident = _thread.get_ident
_alloc = _thread.allocate_lock
RealThread = threading.Thread

BASE_TIME = 1_700_000_000.0
WALL = None          # what the wall clock makes of the time that has passed (coarse, set back ..); None: the time itself


class Kill(BaseException):
    """Unwinds a controlled thread when its execution is over."""


class Hang(BaseException):
    """Solo mode: an operation that could never return."""


ACTIVE = None  # the running Execution, if any


# ------------------------------------------------------------------ solo clock
class _Solo:
    now = 0.0
    sleeps = 0
    max_sleeps = float('inf')     # until solo_reset
    lines = 0
    max_lines = float('inf')
    log = None


def solo_reset(max_sleeps=2000, max_lines=500_000):
    _Solo.max_lines = max_lines
    _Solo.now = 0.0
    _Solo.sleeps = 0
    _Solo.lines = 0
    _Solo.max_sleeps = max_sleeps
    _Solo.log = []
    return _Solo


def _solo_wait(dt):
    _Solo.sleeps += 1
    if _Solo.sleeps > _Solo.max_sleeps:
        raise Hang('more than %d sleeps without an end' % _Solo.max_sleeps)
    _Solo.now += max(0.0, dt)
    if _Solo.log is not None:
        _Solo.log.append(dt)


def solo_sleep(dt):
    _solo_wait(dt)


# ------------------------------------------------------------------ controlled threads
class CT:
    _opaque = True
    __slots__ = ('tid', 'name', 'state', 'go', 'ready', 'wake', 'what', 'fresh', 'exc', 'loc', 'pyobj', 'ident',
                 'timed_out', 'background', 'started', 'interrupt')

    def __init__(self, tid, name):
        self.tid = tid
        self.name = name
        self.state = 'run'      # run | blocked | done
        self.go = _alloc()
        self.go.acquire()
        self.ready = None
        self.wake = None
        self.what = None
        self.fresh = False
        self.exc = None
        self.loc = 0
        self.pyobj = None
        self.ident = None
        self.timed_out = False
        self.background = False
        self.started = False
        self.interrupt = False  # pending: KeyboardInterrupt out of the wait it is in


class Execution:
    _opaque = True

    def __init__(self, main, deviations=None, *, gran='line', bound=2, max_steps=200_000, max_time=600.0, max_lines=500_000,
                 early_wake=False, tick=0.0, statehash=None, region=False):
        self.main = main
        self.dev = deviations or {}
        self.gran = gran
        self.bound = bound
        self.max_steps = max_steps
        self.max_time = max_time
        self.early_wake = early_wake
        self.tick = tick
        self.now = 0.0
        self.zero_sleep = 0.0         # what a sleep(0) takes (set by harnesses in which some thread polls without waiting)
        self.threads = []
        self.current = None
        self.killing = False
        self.status = None            # None | 'done' | 'deadlock' | 'horizon' | 'livelock' | 'pruned' | 'divergence'
        self.status_info = None
        self.steps = 0
        self.points = []              # (n_alternatives, free, state_key)   free: alternatives cost 0
        self.region_on = not region
        self.done_lock = _alloc()
        self.done_lock.acquire()
        self.deadlock_info = None
        self.cost = 0
        self.statehash = statehash
        self.lines = 0
        self.max_lines = max_lines
        self.events = []              # harness log
        self.switches = []
        self.last_dev = max(self.dev) if self.dev else -1
        self.keep = []
        self.quiet = None             # index of the next moment at which everybody waits (None: not counted)
        self.interrupt_at = None      # at which of them the main thread is interrupted in its wait
        self.interrupted = None       # what it was waiting for
        self.waiting_kill = None

    # -------------------------------------------------------------- running
    def run(self):
        global ACTIVE
        assert ACTIVE is None
        gcwas = gc.isenabled()
        gc.disable()
        ACTIVE = self
        t0 = self._new_thread('main', self.main)
        t0.started = True
        self.current = t0
        t0.go.release()
        self.done_lock.acquire()
        # everything is over or stuck: unwind the remaining threads one by one
        self.killing = True
        for t in list(self.threads):
            n = 0
            while t.state != 'done':
                self.current = t
                t.go.release()
                self.done_lock.acquire()
                n += 1
                if n > 1000:
                    raise RuntimeError('cannot unwind thread %s' % t.name)
        ACTIVE = None
        if gcwas:
            gc.enable()
        return self

    def _new_thread(self, name, fn, background=False):
        t = CT(len(self.threads), name)
        t.background = background
        self.threads.append(t)
        t.state = 'run'
        t.exc = None
        _thread.start_new_thread(self._boot, (t, fn))
        return t

    def _boot(self, t, fn):
        t.go.acquire()
        t.ident = real_get_ident()
        try:
            if not self.killing:
                fn()
        except Kill:
            pass
        except BaseException as e:
            if t.pyobj is None:                # (that of a thread of the code under test would keep its frames)
                t.exc = e
            self.events.append(('thread-exception', t.name, type(e).__name__, str(e)))
        t.state = 'done'
        t.ident = None
        if self.killing:
            self.done_lock.release()
            return
        try:
            self._pick(t, exiting=True)
        except Kill:
            pass

    # -------------------------------------------------------------- choosing
    def _enabled(self, t):
        if t.state == 'run':
            return True
        if t.state == 'done':
            return False
        if t.interrupt:
            return True
        if t.ready is not None and t.ready():
            return True
        return t.wake is not None and t.wake <= self.now

    def _finish(self, status, info=None):
        """Called by the running thread: the execution is over."""
        if self.status is None:
            self.status = status
            self.status_info = info
        self.killing = True
        self.done_lock.release()

    def _stop_here(self, t, status, info=None):
        self._finish(status, info)
        # wait to be unwound
        t.go.acquire()
        raise Kill

    def _choose(self, alts, free):
        """alts: list of threads, alts[0] the default; free: alternatives cost nothing."""
        n = len(alts)
        if n == 1:
            return alts[0]
        i = len(self.points)
        c = self.dev.get(i, 0)
        key = hash(tuple([(x.loc, x.state) for x in self.threads]))
        self.points.append((n, free, key))
        if c:
            if c >= n:
                return None
            self.switches.append((i, self.current.name if self.current else '?', alts[c].name))
        return alts[c]

    def _prune(self):
        if self.statehash is not None and len(self.points) > self.last_dev:
            return self.statehash(self)
        return False

    def point(self, t):
        """A preemption point of the running thread t."""
        self.steps += 1
        if self.steps > self.max_steps:
            self._stop_here(t, 'horizon', 'more than %d steps' % self.max_steps)
        if not self.region_on:
            return
        alts = None
        for x in self.threads:
            if x is not t and x.state != 'done' and self._enabled(x):
                if alts is None:
                    alts = [t]
                alts.append(x)
        if self.early_wake:
            for x in self.threads:
                if x is not t and x.state == 'blocked' and x.wake is not None and not self._enabled(x):
                    if alts is None:
                        alts = [t]
                    alts.append(x)
        if alts is None:
            return
        if self._prune():
            self._stop_here(t, 'pruned')
        x = self._choose(alts, False)
        if x is None:
            self._stop_here(t, 'divergence', 'choice out of range at point %d' % (len(self.points) - 1))
        if x is t:
            return
        self._wake_early(x)
        self._handoff(t, x)

    def _wake_early(self, x):
        if x.state == 'blocked' and not self._enabled(x):
            self.now = max(self.now, x.wake)

    def _handoff(self, t, x):
        self._resume(x)
        t.go.acquire()
        if self.killing:
            raise Kill

    def _resume(self, x):
        if x.state == 'blocked':
            x.timed_out = not (x.ready is not None and x.ready())
            x.state = 'run'
            x.ready = None
            x.wake = None
            x.what = None
        self.current = x
        x.go.release()

    def _pick(self, t, exiting=False):
        """The running thread t is blocked or done: let somebody else run."""
        while True:
            alts = [x for x in self.threads if x.state != 'done' and self._enabled(x)]
            n_free = len(alts)
            if not alts and self.quiet is not None and self.threads[0].state == 'blocked':
                self.quiet += 1
                if self.quiet - 1 == self.interrupt_at:
                    self.interrupted = self.threads[0].what
                    self.threads[0].interrupt = True
                    continue
            if not alts:
                sleepers = [x for x in self.threads if x.state == 'blocked' and x.wake is not None]
                if not sleepers:
                    live = [x for x in self.threads if x.state != 'done']
                    if not [x for x in live if not x.background]:
                        status, info = 'done', None
                    else:
                        status, info = 'deadlock', ['%s blocked on %s' % (x.name, x.what) for x in live]
                    self._finish(status, info)
                    break
                if not [x for x in self.threads if x.state != 'done' and not x.background]:
                    # only background threads are left (sleeping): over
                    self._finish('done')
                    break
                self.now = max(self.now, min(x.wake for x in sleepers))
                if self.now > self.max_time:
                    self._finish('livelock', ['%s waiting for %s' % (x.name, x.what)
                                              for x in self.threads if x.state != 'done'])
                    break
                continue
            if self.region_on and len(alts) > 1:
                if self._prune():
                    self._finish('pruned')
                    break
                x = self._choose(alts, True)
            else:
                x = alts[0]
            if x is None:
                self._finish('divergence', 'choice out of range at point %d' % (len(self.points) - 1))
                break
            if x is t and not exiting:
                t.timed_out = not (t.ready is not None and t.ready())
                t.state = 'run'
                t.ready = t.wake = t.what = None
                self.current = t
                return
            self._resume(x)
            if exiting:
                return
            t.go.acquire()
            if self.killing:
                raise Kill
            return
        # finished
        if exiting:
            return
        t.go.acquire()
        raise Kill

    # -------------------------------------------------------------- services for primitives
    def sync(self):
        """Scheduling point before a synchronisation operation."""
        if self.killing:
            raise Kill
        t = self.current
        if t.fresh:            # a line point was taken immediately before
            t.fresh = False
            return t
        self.point(t)
        return t

    def block(self, ready, timeout=None, what=None):
        """Block the current thread until ready() or for timeout (virtual) seconds. True if ready."""
        if self.killing:
            raise Kill
        t = self.current
        t.state = 'blocked'
        t.ready = ready
        t.wake = None if timeout is None else self.now + max(0.0, timeout)
        t.what = what
        self.steps += 1
        if self.steps > self.max_steps:
            t.state = 'run'
            self._stop_here(t, 'horizon', 'more than %d steps' % self.max_steps)
        self._pick(t)
        if t.interrupt:
            t.interrupt = False
            raise KeyboardInterrupt
        return not t.timed_out

    def sleep(self, dt):
        if self.killing:
            raise Kill
        self.sync()
        self.block(None, dt or self.zero_sleep, 'sleep(%r)' % dt)

    # -------------------------------------------------------------- services for harnesses
    def spawn(self, fn, name, background=False):
        t = self._new_thread(name, fn, background)
        t.started = True
        self.point(self.current)
        return t

    def join(self, *ts):
        for t in ts:
            if t.state != 'done':
                self.block(lambda t=t: t.state == 'done', None, 'end of %s' % t.name)

    def wait_for(self, pred, what='condition'):
        if not pred():
            self.block(pred, None, what)

    def log(self, *ev):
        self.events.append(ev)

    def region(self, on):
        self.region_on = on


def cur():
    return ACTIVE


# ------------------------------------------------------------------ primitives
def _tmo(timeout):
    return None if timeout is None or timeout < 0 else timeout


class Lock:
    def __init__(self):
        self._held = False

    def acquire(self, blocking=True, timeout=-1):
        s = ACTIVE
        if s is None:
            if not self._held:
                self._held = True
                return True
            if not blocking:
                return False
            if _tmo(timeout) is not None:
                _solo_wait(timeout)
                return False
            raise Hang('acquiring a lock that is never released')
        s.sync()
        if self._held:
            if not blocking:
                return False
            if not s.block(self._free, _tmo(timeout), 'lock'):
                return False
        self._held = True
        return True

    def _free(self):
        return not self._held

    def release(self):
        s = ACTIVE
        if s is not None:
            s.sync()
        if not self._held:
            raise RuntimeError('release unlocked lock')
        self._held = False

    def locked(self):
        if ACTIVE is not None:
            ACTIVE.sync()
        return self._held

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    acquire_lock, release_lock, locked_lock = acquire, release, locked

    def _at_fork_reinit(self):
        self._held = False


def _me():
    return ACTIVE.current if ACTIVE is not None else 'solo'


class RLock:
    def __init__(self):
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        s = ACTIVE
        if s is not None:
            s.sync()
        me = _me()
        if self._owner is me:
            self._count += 1
            return True
        if self._owner is not None:
            if not blocking:
                return False
            if s is None:
                if _tmo(timeout) is not None:
                    _solo_wait(timeout)
                    return False
                raise Hang('acquiring a lock that is never released')
            if not s.block(lambda: self._owner is None, _tmo(timeout), 'rlock'):
                return False
        self._owner = me
        self._count = 1
        return True

    def release(self):
        s = ACTIVE
        if s is not None:
            s.sync()
        if self._owner is not _me():
            raise RuntimeError('cannot release un-acquired lock')
        self._count -= 1
        if not self._count:
            self._owner = None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._owner is _me()

    def _release_save(self):
        st = self._count
        self._count = 0
        self._owner = None
        return st

    def _acquire_restore(self, st):
        s = ACTIVE
        if self._owner is not None:
            if s is None:
                raise Hang('re-acquiring a lock that is never released')
            s.block(lambda: self._owner is None, None, 'rlock')
        self._owner = _me()
        self._count = st


class Condition:
    def __init__(self, lock=None):
        self._lock = RLock() if lock is None else lock
        self.acquire = self._lock.acquire
        self.release = self._lock.release
        self._waiters = []

    def __enter__(self):
        self._lock.acquire()
        return self

    def __exit__(self, *a):
        self._lock.release()

    def _owned(self):
        return self._lock._is_owned() if isinstance(self._lock, RLock) else self._lock._held

    def wait(self, timeout=None):
        if not self._owned():
            raise RuntimeError('cannot wait on un-acquired lock')
        s = ACTIVE
        if s is None:
            if timeout is None:
                raise Hang('waiting for a notification that never comes')
            _solo_wait(timeout)
            return False
        s.sync()
        token = [False]
        self._waiters.append(token)
        if isinstance(self._lock, RLock):
            st = self._lock._release_save()
        else:
            self._lock._held = False
        try:
            ok = s.block(lambda: token[0], timeout, 'condition')
        except Kill:
            raise
        except BaseException:
            self._awake(s, token, st if isinstance(self._lock, RLock) else None)
            raise
        self._awake(s, token, st if isinstance(self._lock, RLock) else None)
        return ok

    def _awake(self, s, token, st):
        if not token[0] and token in self._waiters:
            self._waiters.remove(token)
        if isinstance(self._lock, RLock):
            self._lock._acquire_restore(st)
        else:
            if self._lock._held:
                s.block(self._lock._free, None, 'lock')
            self._lock._held = True

    def wait_for(self, predicate, timeout=None):
        end = None
        result = predicate()
        while not result:
            if timeout is not None:
                now = ACTIVE.now if ACTIVE is not None else _Solo.now
                if end is None:
                    end = now + timeout
                left = end - now
                if left <= 0:
                    break
                self.wait(left)
            else:
                self.wait()
            result = predicate()
        return result

    def notify(self, n=1):
        if not self._owned():
            raise RuntimeError('cannot notify on un-acquired lock')
        if ACTIVE is not None:
            ACTIVE.sync()
        for tok in self._waiters[:n]:
            tok[0] = True
        del self._waiters[:n]

    def notify_all(self):
        self.notify(len(self._waiters))

    notifyAll = notify_all


class Event:
    def __init__(self):
        self._flag = False

    def is_set(self):
        if ACTIVE is not None:
            ACTIVE.sync()
        return self._flag

    isSet = is_set

    def set(self):
        if ACTIVE is not None:
            ACTIVE.sync()
        self._flag = True

    def clear(self):
        if ACTIVE is not None:
            ACTIVE.sync()
        self._flag = False

    def wait(self, timeout=None):
        s = ACTIVE
        if s is None:
            if self._flag:
                return True
            if timeout is None:
                raise Hang('waiting for an event that is never set')
            _solo_wait(timeout)
            return self._flag
        s.sync()
        if not self._flag:
            s.block(lambda: self._flag, timeout, 'event')
        return self._flag


class Semaphore:
    def __init__(self, value=1):
        if value < 0:
            raise ValueError('semaphore initial value must be >= 0')
        self._value = value

    def acquire(self, blocking=True, timeout=None):
        s = ACTIVE
        if s is not None:
            s.sync()
        if self._value <= 0:
            if not blocking:
                return False
            if s is None:
                if timeout is not None:
                    _solo_wait(timeout)
                    return False
                raise Hang('acquiring a semaphore that is never released')
            if not s.block(lambda: self._value > 0, timeout, 'semaphore'):
                return False
        self._value -= 1
        return True

    __enter__ = acquire

    def release(self, n=1):
        if ACTIVE is not None:
            ACTIVE.sync()
        self._value += n

    def __exit__(self, *a):
        self.release()


class BoundedSemaphore(Semaphore):
    def __init__(self, value=1):
        super().__init__(value)
        self._initial = value

    def release(self, n=1):
        if self._value + n > self._initial:
            raise ValueError('Semaphore released too many times')
        super().release(n)


class _MainThread:
    name = 'MainThread'
    daemon = False
    ident = 1
    native_id = 1

    def is_alive(self):
        return True

    def join(self, timeout=None):
        raise RuntimeError('cannot join current thread')


_main_obj = _MainThread()


class Thread:
    _n = 0

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        self._target = target
        self._args = args
        self._kwargs = kwargs or {}
        self.daemon = bool(daemon)
        self.name = name or 'Thread'
        self._ct = None
        self._s = None

    def run(self):
        try:
            if self._target is not None:
                self._target(*self._args, **self._kwargs)
        finally:                               # as the real one: a thread that has run lets go of what it ran
            del self._target, self._args, self._kwargs

    def start(self):
        s = ACTIVE
        if self._ct is not None:
            raise RuntimeError('threads can only be started once')
        if s is None:
            raise RuntimeError('harness error: thread started outside a controlled execution')
        s.sync()
        n = sum(1 for t in s.threads if t.name.startswith('worker'))
        t = s._new_thread('worker%d' % n, self.run)
        t.started = True
        t.pyobj = self
        self._ct = t
        self._s = s
        s.point(s.current)

    def is_alive(self):
        if ACTIVE is not None:
            ACTIVE.sync()
        return self._ct is not None and self._ct.state != 'done'

    def join(self, timeout=None):
        if self._ct is None:
            raise RuntimeError('cannot join thread before it is started')
        s = ACTIVE
        if s is None:
            if self._ct.state != 'done':
                raise Hang('joining a thread that never ends')
            return
        s.sync()
        if s.current is self._ct:
            raise RuntimeError('cannot join current thread')
        if self._ct.state != 'done':
            s.block(lambda: self._ct.state == 'done', _tmo(timeout), 'join')

    @property
    def ident(self):
        return None if self._ct is None else 1000 + self._ct.tid

    native_id = ident

    def getName(self):
        return self.name

    def setName(self, n):
        self.name = n

    def isDaemon(self):
        return self.daemon

    def setDaemon(self, d):
        self.daemon = d


class Timer(Thread):
    def __init__(self, interval, function, args=None, kwargs=None):
        super().__init__()
        self.interval, self.function = interval, function
        self.args, self.kwargs = args or [], kwargs or {}
        self.finished = Event()

    def cancel(self):
        self.finished.set()

    def run(self):
        self.finished.wait(self.interval)
        if not self.finished.is_set():
            self.function(*self.args, **self.kwargs)
        self.finished.set()


def current_thread():
    s = ACTIVE
    if s is None or s.current is None or s.current.pyobj is None:
        return _main_obj
    return s.current.pyobj


def get_ident():
    s = ACTIVE
    return 1 if s is None else 1000 + s.current.tid


# ------------------------------------------------------------------ clock
def v_sleep(dt):
    if not isinstance(dt, (int, float)):
        raise TypeError('sleep() needs a number')
    if dt < 0:
        raise ValueError('sleep length must be non-negative')
    s = ACTIVE
    if s is None:
        _solo_wait(dt)
    else:
        s.sleep(dt)


def v_monotonic():
    s = ACTIVE
    if s is None:
        return _Solo.now
    s.now += s.tick
    return s.now


def v_time():
    t = v_monotonic()
    return BASE_TIME + (t if WALL is None else WALL(t))


def v_time_ns():
    return int(v_time() * 1e9)


def v_monotonic_ns():
    return int(v_monotonic() * 1e9)


# ------------------------------------------------------------------ line events
_TOOL = 3
_prefixes = ()
_target_cache = {}
_VISIBLE = {'LOAD_ATTR', 'STORE_ATTR', 'DELETE_ATTR', 'CALL', 'CALL_FUNCTION_EX', 'BINARY_SUBSCR', 'STORE_SUBSCR',
            'DELETE_SUBSCR', 'FOR_ITER', 'CONTAINS_OP', 'COMPARE_OP', 'BINARY_OP', 'BEFORE_WITH', 'WITH_EXCEPT_START',
            'STORE_GLOBAL', 'STORE_DEREF', 'YIELD_VALUE', 'SEND', 'GET_ITER', 'LOAD_METHOD', 'BINARY_SLICE',
            'STORE_SLICE', 'LOAD_SUPER_ATTR', 'CALL_KW', 'UNPACK_SEQUENCE', 'LIST_EXTEND', 'CALL_INTRINSIC_1',
            'UNARY_NOT', 'POP_JUMP_IF_TRUE', 'POP_JUMP_IF_FALSE'}
_INSTR = {'LOAD_ATTR', 'STORE_ATTR', 'DELETE_ATTR', 'CALL', 'CALL_FUNCTION_EX', 'BINARY_SUBSCR', 'STORE_SUBSCR',
          'DELETE_SUBSCR', 'CALL_KW', 'STORE_DEREF', 'STORE_GLOBAL', 'FOR_ITER', 'CONTAINS_OP'}


def _info(code):
    i = _target_cache.get(code)
    if i is None:
        fn = code.co_filename
        if not fn.startswith(_prefixes) or '/tests/' in fn:
            i = False
        else:
            lines = {}
            ln = None
            instrs = set()
            for ins in dis.get_instructions(code):
                if ins.positions is not None and ins.positions.lineno is not None:
                    ln = ins.positions.lineno
                if ins.opname in _VISIBLE:
                    lines[ln] = True
                if ins.opname in _INSTR:
                    instrs.add(ins.offset)
            i = (lines, instrs, code.co_name)
        _target_cache[code] = i
    return i


def _on_line(code, line):
    i = _info(code)
    if not i or line not in i[0]:
        return sys.monitoring.DISABLE
    s = ACTIVE
    if s is None:
        _Solo.lines += 1
        if _Solo.lines > _Solo.max_lines:
            _Solo.lines = 0
            raise Hang('more than %d source lines executed without an end' % _Solo.max_lines)
        return
    if s.killing:
        s.lines += 1
        if s.lines > 3 * s.max_lines:
            s.lines = 0
            raise Kill
        return
    t = s.current
    if t.ident != real_get_ident():
        return
    t.loc = hash((i[2], line))
    s.lines += 1
    if s.lines > s.max_lines:
        s._stop_here(t, 'horizon', 'more than %d source lines executed' % s.max_lines)
    if s.gran != 'line':
        return
    t.fresh = False
    s.point(t)
    t.fresh = True


def _on_instr(code, off):
    i = _info(code)
    if not i or off not in i[1]:
        return sys.monitoring.DISABLE
    s = ACTIVE
    if s is None or s.gran != 'instr' or s.killing:
        return
    t = s.current
    if t.ident != real_get_ident():
        return
    t.loc = hash((i[2], -off))
    t.fresh = False
    s.point(t)
    t.fresh = True


def monitor(gran):
    """Switch line/instruction events on (idempotent)."""
    m = sys.monitoring
    if m.get_tool(_TOOL) is None:
        m.use_tool_id(_TOOL, 'verif')
        m.register_callback(_TOOL, m.events.LINE, _on_line)
        m.register_callback(_TOOL, m.events.INSTRUCTION, _on_instr)
    ev = m.events.LINE
    if gran == 'instr':
        ev |= m.events.INSTRUCTION
    if m.get_events(_TOOL) != ev:
        m.set_events(_TOOL, ev)


_installed = False


def install(prefixes):
    global _prefixes, _installed
    _prefixes = tuple(prefixes)
    if _installed:
        return
    _installed = True
    import queue, logging, contextlib, unittest, urllib.request, http.client, socket, tempfile, pickle  # noqa: real primitives inside
    g = globals()
    for n in ('Lock', 'RLock', 'Condition', 'Event', 'Semaphore', 'BoundedSemaphore', 'Thread', 'Timer'):
        setattr(threading, n, g[n])
    threading._allocate_lock = Lock
    threading._after_fork.__code__ = (lambda: None).__code__      # forked workers have one thread and fresh executions
    threading.current_thread = threading.currentThread = current_thread
    threading.get_ident = get_ident
    threading.main_thread = lambda: _main_obj
    time.sleep = v_sleep
    time.time = v_time
    time.monotonic = v_monotonic
    time.perf_counter = v_monotonic
    time.time_ns = v_time_ns
    time.monotonic_ns = v_monotonic_ns
    time.perf_counter_ns = v_monotonic_ns
    _thread_mod = sys.modules['_thread']
    _thread_mod.get_ident = real_get_ident  # unchanged; kept explicit
    logging.disable(logging.CRITICAL)
    if not os.environ.get('VERIF_DEBUG'):
        sys.unraisablehook = lambda *a: None      # destructors of abandoned executions
