"""C03: reader-writer lock: exclusion, no deadlock, as good as new afterwards."""
from . import load, sched
from .sched import v_sleep
load.load()
from stream2py.utility.reader_writer_lock import RWLock                  # noqa: E402
from stream2py.utility.locked_sorted_deque import RWLockSortedDeque      # noqa: E402


class Boom(Exception):
    pass


class Quit(BaseException):
    """Like KeyboardInterrupt or the closing of a generator."""


class Programs:
    """Each thread runs a string: r/w = acquire, body, release; R/W = the same by the context managers of the locked deque;
    x/X = reader/writer context whose body raises an Exception, q/Q = ... an exception of another kind."""

    _opaque = True             # its state is what shared() returns

    def __init__(self, progs, aftermath=True):
        self.progs = progs
        self.aftermath = aftermath
        self.inside = []           # (kind, thread)
        self.bad = []
        self.entered = [0] * len(progs)
        self.outcome = None
        deque_needed = any(c in 'RWxXqQ' for p in progs for c in p)
        self.lock = RWLockSortedDeque(((0, 'i'),)) if deque_needed else RWLock()
        self.log = []

    def shared(self):
        return (self.lock, self.inside, self.bad, self.entered)

    def enter(self, kind, i):
        self.inside.append((kind, i))
        ks = [k for k, _ in self.inside]
        if len(ks) > 1 and 'w' in ks:
            self.bad.append('inside together: %s' % sorted(self.inside))

    def leave(self, kind, i):
        self.inside.remove((kind, i))

    def body(self, kind, i):
        self.enter(kind, i)
        self.s.sync()
        self.s.sync()
        self.leave(kind, i)
        self.entered[i] += 1
        self.log.append((kind, i))

    def thread(self, i):
        lock = self.lock
        for c in self.progs[i]:
            if c == 'r':
                lock.reader_acquire()
                self.body('r', i)
                lock.reader_release()
            elif c == 'w':
                lock.writer_acquire()
                self.body('w', i)
                lock.writer_release()
            else:
                cm = lock.reader_lock if c in 'Rxq' else lock.writer_lock
                kind = 'r' if c in 'Rxq' else 'w'
                try:
                    with cm():
                        self.body(kind, i)
                        if c in 'xX':
                            raise Boom
                        if c in 'qQ':
                            raise Quit
                except (Boom, Quit):
                    pass

    def main(self, s):
        self.s = s
        ts = [s.spawn(lambda i=i: self.thread(i), 't%d' % i) for i in range(1, len(self.progs))]
        self.thread(0)
        s.join(*ts)
        s.region(False)
        if self.aftermath:
            self.after(s)

    def after(self, s):
        """The lock is as good as new: writer alone, two readers at once, a writer shut out by a reader and vice versa."""
        lock = self.lock
        lock.writer_acquire()
        seen = []
        def rd():
            lock.reader_acquire()
            seen.append('r')
            lock.reader_release()
        def wr():
            lock.writer_acquire()
            seen.append('w')
            lock.writer_release()
        def quiet(*ts):
            s.wait_for(lambda: all(t.state == 'done' or (t.state == 'blocked' and not s._enabled(t)) for t in ts))
        a, b = s.spawn(rd, 'after-r'), s.spawn(wr, 'after-w')
        quiet(a, b)
        if seen:
            self.bad.append('afterwards a writer does not keep %s out' % seen)
        lock.writer_release()
        s.join(a, b)
        lock.reader_acquire()
        c = s.spawn(rd, 'after-r2')
        quiet(c)
        if c.state != 'done':
            self.bad.append('afterwards a reader keeps another reader out')
        d = s.spawn(wr, 'after-w2')
        quiet(d)
        if d.state == 'done':
            self.bad.append('afterwards a reader does not keep a writer out')
        lock.reader_release()
        s.join(c, d)

    def check(self, s):
        self.outcome = self.log
        out = sorted(set(self.bad))[:3]
        for i, p in enumerate(self.progs):
            if self.entered[i] != len(p):
                out.append('thread %d entered %d times of %d' % (i, self.entered[i], len(p)))
        return out


QUICK = [('r', 'w'), ('w', 'w'), ('rr', 'ww'), ('rw', 'wr'), ('r', 'r', 'w'), ('r', 'w', 'w'), ('w', 'w', 'w'),
         ('rw', 'w'), ('rwr', 'wrw'), ('R', 'W'), ('x', 'W'), ('X', 'R'), ('xR', 'XW'), ('X', 'W', 'r'), ('q', 'W'), ('Q', 'R'), ('qQ', 'RW')]
FOUR = [('r', 'r', 'r', 'w'), ('r', 'r', 'w', 'w'), ('rr', 'r', 'w'), ('r', 'R', 'x', 'W')]
THOROUGH = QUICK + [('r', 'r', 'r', 'w'), ('rr', 'r', 'w'), ('rr', 'rr', 'w'), ('r', 'w', 'rw'), ('rw', 'wr', 'r'), ('rw', 'wr', 'w'), ('ww', 'r', 'r'),
                    ('rwrw', 'wrwr'), ('r', 'r', 'w', 'w'), ('rr', 'r', 'r', 'w'), ('r', 'w', 'w', 'w'), ('q', 'Q', 'W'), ('X', 'x', 'W'), ('xx', 'XX', 'rw')]


class Crowd:
    """Many readers inside at once, a writer waiting for all of them, many readers and writers waiting for it."""
    outcome = None

    def __init__(self, readers, writers, how):
        self.n, self.m, self.how = readers, writers, how

    def main(self, s):
        s.region(False)
        lock = self.lock = RWLockSortedDeque([(0, 'i')])
        self.inside, self.problems, self.done = [], [], 0

        def use(kind, stay):
            def body():
                self.inside.append(kind)
                ks = set(self.inside)
                if 'w' in ks and len(self.inside) > 1:
                    self.problems.append('inside together: %d readers and %d writers' % (self.inside.count('r'), self.inside.count('w')))
                self.most = max(self.most, len(self.inside))
                v_sleep(stay)
                self.inside.remove(kind)
                self.done += 1
            if self.how == 'context':
                with (lock.reader_lock() if kind == 'r' else lock.writer_lock()):
                    body()
            else:
                (lock.reader_acquire if kind == 'r' else lock.writer_acquire)()
                body()
                (lock.reader_release if kind == 'r' else lock.writer_release)()

        for rounds in range(2):
            self.most = 0
            first = [s.spawn(lambda: use('r', 5), 'reader') for _ in range(self.n)]
            v_sleep(1)
            if self.most != self.n:
                self.problems.append('%d of %d readers are inside together' % (self.most, self.n))
            writers = [s.spawn(lambda: use('w', 3), 'writer') for _ in range(self.m)]
            v_sleep(1)
            late = [s.spawn(lambda: use('r', 4), 'late reader') for _ in range(self.n)]
            s.join(*first, *writers, *late)
        if self.done != 2 * (2 * self.n + self.m):
            self.problems.append('%d of %d uses came to an end' % (self.done, 2 * (2 * self.n + self.m)))
        self.outcome = self.done

    def check(self, s):
        return sorted(set(self.problems))[:3]


def run(rep):
    def hs(ps):
        return [(' | '.join(p), (lambda p=p: Programs(p))) for p in ps]
    rep.stateful(hs(rep.q(QUICK, THOROUGH)), gran='line', max_violations=1)
    rep.explore_many('four threads', hs(FOUR + [('r', 'r', 'r', 'r', 'w'), ('r', 'w', 'r', 'w'), ('rr', 'rr', 'r', 'w')]), bound=rep.q(1, 2), gran='sync')
    rep.explore_many('crowds', [('%d readers, %d writers, %s' % (n, m, how), lambda n=n, m=m, how=how: Crowd(n, m, how))
                                for n in rep.q((1, 3, 5, 8, 9, 16, 17, 33, 65), range(1, 130)) for m in (0, 1, 2, 9) for how in ('context', 'calls')],
                     bound=0, gran='sync')
    if rep.thorough:
        rep.stateful([(n + ' (lock operations)', f) for n, f in hs(FOUR + [('rr', 'r', 'r', 'w'), ('r', 'w', 'r', 'w')])], gran='sync', max_violations=1)
        rep.stateful([(n + ' (instructions)', f) for n, f in hs([p for p in QUICK if len(p) == 2])], gran='instr')
