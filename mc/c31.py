"""C31: an interrupt that hits a waiting call leaves everything usable."""
import itertools

from .c25 import Base
from stream2py.exceptions import StreamNotStartedError

from .c03 import RWLockSortedDeque
from .env import BufferReader, SourceReader, StreamBuffer, StreamSource
from .sched import v_sleep


class Slow:
    """A key whose comparison takes time when somebody else compares."""
    on = None

    def __init__(self, i):
        self.i = i

    def wait(self):
        s = Slow.on
        if s is not None and s.current.name == 'other':
            v_sleep(0.15)

    def __lt__(self, o):
        self.wait()
        return self.i < o.i

    def __gt__(self, o):
        self.wait()
        return self.i > o.i

    def __eq__(self, o):
        return isinstance(o, Slow) and self.i == o.i

    __hash__ = None

    def __repr__(self):
        return 'Slow(%r)' % (self.i,)


class Interrupted(Base):
    """The main thread does `ops` and is interrupted at the `at`-th moment at which everybody waits.
    `slow`: which of open, info, read, key, close take time. `other`: what another thread does meanwhile."""

    def __init__(self, ops, at, slow=(), other=(), kind='plain', auto=True, n=3):
        self.ops, self.at, self.slow, self.other, self.kind, self.auto, self.n = ops, at, slow, other, kind, auto, n

    def make(self):
        st = self

        def nap(what, t):
            if what in st.slow:
                v_sleep(t)

        def open(self):
            nap('open', 0.5)
            st.opens += 1
            if st.opens > st.closes + 1:
                st.problems.append('opened while open')
            st.given = 0

        def read(self):
            if st.opens != st.closes + 1:
                st.problems.append('read while not open')
            nap('read', 0.4)
            if st.given < st.n:
                st.given += 1
                return (st.opens, st.given)

        def key(self, x):
            nap('key', 0.3)
            return Slow(x)

        def close(self):
            nap('close', 0.5)
            st.closes += 1
            if st.closes > st.opens:
                st.problems.append('closed while not open')

        def info(self):
            nap('info', 0.5)
            return {'session': st.opens}
        base = StreamSource if self.kind == 'shared' else SourceReader
        return type('Src', (base,), dict(open=open, read=read, key=key, close=close, info=property(info)))()

    def go(self, s):
        self.started = False
        self.opens = self.closes = self.given = 0
        Slow.on = s
        self.src = self.make()
        opts = dict(maxlen=9, auto_drop=self.auto, sleep_time_on_read_none_s=0.25)
        if self.kind == 'shared':
            self.src.configure_buffer(**opts)
            self.sb = None
        else:
            self.sb = StreamBuffer(self.src, **opts)
        self.rs = []
        self.seen = {}                        # reader -> items it was given
        self.dropped = {}
        self.failed = None
        self.outs = []
        if self.other:
            self.do('start')
            self.do('mk')
            self.keep = self.mk()
            th = s.spawn(lambda: [self.by_other(o) for o in self.other], 'other')
        s.quiet, s.interrupt_at = 0, self.at
        s.region(True)
        for o in self.ops:
            before = s.interrupted
            try:
                self.outs.append((o, self.do(o)))
            except KeyboardInterrupt:
                self.outs.append((o, 'interrupted'))
                self.after(o)
            except StreamNotStartedError:
                self.outs.append((o, 'not started'))
                if s.interrupted is None or self.started or self.kind == 'shared':
                    self.problems.append('%s: not started, though opened %d times' % (o, self.opens))
            else:
                if before is None and s.interrupted is not None:
                    self.problems.append('%s went on although it was interrupted in %s' % (o, s.interrupted))
        s.quiet = None
        s.region(False)
        if self.other:
            s.join(th)
        self.settle()
        self.outcome = repr((self.outs, self.opens, self.given))

    def mk(self):
        r = self.src.open_reader() if self.kind == 'shared' else self.sb.mk_reader()
        self.seen[id(r)] = [r, r.source_reader_info['session'], 0]
        return r

    def stream(self):
        return self.src._stream_buffer if self.kind == 'shared' else self.sb

    def took(self, r, x):
        """Reader r was given item x: the one after the last, as long as nothing was dropped."""
        rec = self.seen[id(r)]
        if x[0] != rec[1] or (x[1] != rec[2] + 1 if not self.dropped.get(x[0]) else x[1] <= rec[2]):
            self.problems.append('the reader of session %d was given %r after item %d' % (rec[1], x, rec[2]))
        rec[2] = x[1]

    def do(self, o):
        sb, r = self.stream(), self.rs[-1] if self.rs else None
        if o == 'start':
            if self.kind == 'shared':
                self.rs.append(self.mk())
            else:
                self.started = False
                sb.start()
                self.started = True
        elif o == 'stop':
            if self.kind == 'shared':
                while self.rs:
                    self.rs[-1].close()
                    self.rs.pop()
            else:
                sb.stop()
        elif o == 'mk':
            self.rs.append(self.mk())
        elif o == 'ask':
            return sb.is_running, sb.source_reader_info
        elif o == 'nap':
            v_sleep(0.6)
        elif o == 'join':
            if self.started:
                sb.join(2)
        elif r is None:
            return 'no reader'
        elif o == 'read':
            x = r.read(ignore_no_item_found=True)
            if x is not None:
                self.took(r, x)
            return x
        elif o == 'read two':
            xs = r.read(n=2, ignore_no_item_found=True)
            for x in xs or ():
                self.took(r, x)
            return xs
        elif o == 'wait':
            x = r.read(blocking=True)
            if x is not None:
                self.took(r, x)
            return x
        elif o == 'next':
            try:
                x = next(r)
            except StopIteration:
                return 'end'
            if x is not None:
                self.took(r, x)
            return x
        elif o == 'for':
            k = 0
            for x in r:
                self.took(r, x)
                k += 1
                if k == 2:
                    break
        elif o == 'tail':
            return r.tail(ignore_no_item_found=True, peek=True)
        elif o == 'range':
            return r.range(Slow((0, 0)), Slow((9, 9)), peek=True)
        elif o == 'drop':
            # not while the other thread restarts: then there may be no buffer to drop from
            if 'start' not in self.other and r.range(Slow((0, 0)), Slow((9, 9)), peek=True):
                k = self.opens
                self.dropped[k] = self.dropped.get(k, 0) + 1
                sb.drop(1)
        else:
            raise AssertionError(o)

    def after(self, o):
        if o == 'stop' and self.kind == 'plain' and 'start' not in self.other and self.sb.is_running:
            self.problems.append('running after the interrupted stop')

    def by_other(self, o):
        if o == 'nap':
            v_sleep(0.4)
        elif o == 'range':
            self.keep.range(Slow((0, 0)), Slow((9, 9)), peek=True)
        elif o == 'read':
            x = self.keep.read(ignore_no_item_found=True)
            if x is not None:
                self.took(self.keep, x)
        elif o == 'drop':
            if not self.auto and self.keep.range(Slow((0, 0)), Slow((9, 9)), peek=True) and not self.keep.is_stopped:
                self.dropped[self.opens] = self.dropped.get(self.opens, 0) + 1
                self.sb.drop(1)
        elif o == 'start':
            self.sb.start()
        else:
            raise AssertionError(o)

    def settle(self):
        """Nothing interrupts from here on: everything has to work."""
        sb = self.stream()
        # the readers go on from where they were, up to the last item if their session still runs
        v_sleep(4)
        for r in list(self.rs):
            rec = self.seen[id(r)]
            running = not r.is_stopped
            while (x := r.read(ignore_no_item_found=True)) is not None:
                self.took(r, x)
            if running and rec[2] != self.n and not self.dropped.get(rec[1]):
                self.problems.append('a reader of the running session %d ends with item %d' % (rec[1], rec[2]))
        if self.kind == 'shared':
            for rec in list(self.seen.values()):
                rec[0].close()
            v_sleep(4)
            self.expect(self.opens == self.closes, 'all readers are closed: opened %d and closed %d times' % (self.opens, self.closes))
            n = self.opens
            r = self.mk()
            sb = self.stream()
        else:
            n = self.opens
            sb.start()
            r = sb.mk_reader()
        # a new session works
        self.expect(self.opens == n + 1 and r.source_reader_info == {'session': n + 1}, 'the new session is %r, before it %d' % (r.source_reader_info, n))
        v_sleep(4)
        got = r.range(Slow((0, 0)), Slow((99, 99)), peek=True)
        want = [(n + 1, i) for i in range(1, self.n + 1)]
        self.expect(got == want, 'the new session has %r' % (got,))
        if not self.auto:
            sb.drop(2)
            self.expect(r.range(Slow((0, 0)), Slow((99, 99)), peek=True) == want[2:], 'after dropping 2: %r' % (r.range(Slow((0, 0)), Slow((99, 99)), peek=True),))
        if self.kind == 'shared':
            r.close()
        else:
            sb.stop()
            self.expect(not sb.is_running, 'running after the stop')
        v_sleep(4)
        self.expect(self.opens == self.closes, 'in the end opened %d and closed %d times' % (self.opens, self.closes))


class Locks(Base):
    """r/w: acquire, hold for a while, release; R/W: the same by the context managers. Thread 0 is interrupted at the `at`-th moment
    at which everybody waits."""

    def __init__(self, progs, at):
        self.progs, self.at = progs, at

    def held(self, kind, i):
        self.inside.append((kind, i))
        if len(self.inside) > 1 and 'w' in [k for k, _ in self.inside]:
            self.problems.append('inside together: %s' % sorted(self.inside))
        try:
            v_sleep(1 + i / 4)
        finally:
            self.inside.remove((kind, i))

    def op(self, c, i):
        lock, kind = self.lock, c.lower()
        if c in 'RW':
            with lock.reader_lock() if c == 'R' else lock.writer_lock():
                self.held(kind, i)
        else:
            acquire, release = (lock.reader_acquire, lock.reader_release) if c == 'r' else (lock.writer_acquire, lock.writer_release)
            acquire()
            try:
                self.held(kind, i)
            finally:
                release()
        self.done.append((c, i))

    def go(self, s):
        self.lock, self.inside, self.done = RWLockSortedDeque(), [], []
        ts = [s.spawn(lambda i=i: [self.op(c, i) for c in self.progs[i]], 't%d' % i) for i in range(1, len(self.progs))]
        s.quiet, s.interrupt_at = 0, self.at
        s.region(True)
        for c in self.progs[0]:
            try:
                self.op(c, 0)
            except KeyboardInterrupt:
                self.done.append((c, 'interrupted'))
        s.quiet = None
        for t in ts:
            s.join(t)
        s.region(False)
        for c in 'wWrR':
            self.op(c, 0)
        # readers still do not keep each other out
        def more():
            self.lock.reader_acquire()
            self.held('r', 1)
            self.lock.reader_release()
        with self.lock.reader_lock():
            s.join(s.spawn(more, 'more'))
        self.outcome = repr(self.done)


def run(rep):
    hs = [('%s interrupted at %d, beside %s' % (p, at, ' and '.join(q)), lambda p=p, q=q, at=at: Locks((p,) + q, at))
          for p in ('rw', 'wr', 'RW', 'WR')
          for q in [(a,) for a in ('r', 'w', 'R', 'W', 'rw', 'wr', 'ww')] + [tuple(c) for c in itertools.combinations_with_replacement(('r', 'w', 'rw', 'wr'), 2)]
          for at in range(rep.q(6, 9))]
    rep.explore_many('locks', hs, bound=rep.q(1, 2), gran='sync')
    slows = [(), ('key',), ('read',), ('open',), ('info',), ('close',), ('read', 'close'), ('open', 'key')]
    progs = [('start', 'mk', 'read', 'nap', 'read', 'read', 'stop'), ('start', 'mk', 'wait', 'wait', 'wait', 'wait', 'stop'), ('start', 'mk', 'for', 'for', 'stop'),
             ('start', 'start', 'ask', 'mk', 'next', 'stop', 'ask'), ('start', 'mk', 'nap', 'read two', 'start', 'mk', 'wait', 'tail', 'range'),
             ('start', 'nap', 'stop', 'start', 'ask', 'mk', 'wait', 'stop', 'join'), ('start', 'mk', 'range', 'mk', 'tail', 'nap', 'range', 'stop', 'stop')]
    ats = range(rep.q(14, 24))
    hs = [('slow %s; %s; interrupted at %d' % (' and '.join(sl) or 'nothing', ' '.join(p), at), lambda sl=sl, p=p, at=at: Interrupted(p, at, sl))
          for sl in slows for p in progs for at in ats]
    rep.explore_many('one thread', hs, bound=rep.q(1, 2), gran='sync')
    hs = []
    for p in [('start', 'read', 'nap', 'read', 'stop'), ('start', 'start', 'wait', 'stop', 'start', 'next', 'stop'), ('start', 'for', 'start', 'stop', 'stop', 'start', 'ask', 'wait')]:
        for sl in slows:
            for at in ats:
                hs.append(('slow %s; %s; interrupted at %d' % (' and '.join(sl) or 'nothing', ' '.join(p), at), lambda sl=sl, p=p, at=at: Interrupted(p, at, sl, kind='shared')))
    rep.explore_many('stream sources', hs, bound=rep.q(1, 2), gran='sync')
    hs = []
    for p in [('nap', 'drop', 'read', 'nap', 'drop', 'range'), ('drop', 'drop', 'drop'), ('read', 'range', 'tail', 'read two'), ('wait', 'drop', 'mk', 'read', 'start'), ('stop', 'start', 'mk', 'wait')]:
        for q in [('range', 'range', 'range'), ('read', 'read', 'nap', 'read'), ('nap', 'range', 'read', 'range'), ('nap', 'start', 'nap')]:
            for sl in ((), ('key',), ('read', 'open')):
                for at in range(rep.q(7, 20)):
                    hs.append(('slow %s; %s | %s; interrupted at %d' % (' and '.join(sl) or 'nothing', ' '.join(p), ' '.join(q), at),
                               lambda sl=sl, p=p, q=q, at=at: Interrupted(p, at, sl, q, auto=False)))
    rep.explore_many('two threads', hs, bound=rep.q(1, 2), gran='sync')
