"""C30: a source may use its own stream while it is read and closed."""
import itertools

from .c25 import Base
from .env import SourceReader, StreamBuffer, StreamSource
from .sched import v_sleep

EACH = 0


class Within(Base):
    """`acts`: what the source does with its stream in read number k of a session (EACH: in every one) and in 'close'. `ops`: what the program does."""

    def __init__(self, acts, ops, n=3, kind='plain', auto=True, other=None):
        self.acts, self.ops, self.n, self.kind, self.auto, self.other = acts, ops, n, kind, auto, other

    def make(self):
        st = self

        def open(self):
            st.opens += 1
            st.reads = 0
            st.stopped_inside = False

        def read(self):
            st.reads += 1
            k = st.reads
            for a in st.acts.get(k, ()) + st.acts.get(EACH, ()):
                st.act(a, min(k - 1, st.n))
            return (k, st.opens) if k <= st.n else None

        def close(self):
            st.closes += 1
            if st.closes > st.opens:
                st.problems.append('closed more often than opened')
            for a in st.acts.get('close', ()):
                st.act(a, min(st.reads, st.n))

        base = StreamSource if self.kind == 'shared' else SourceReader
        return type('Own', (base,), dict(open=open, read=read, close=close, key=lambda self, x: x[0], info=property(lambda self: {'session': st.opens})))()

    def stream(self):
        return self.src._stream_buffer if self.kind == 'shared' else self.sb

    def act(self, a, done):
        try:
            self.act_(a, done)
        except Exception as e:
            self.problems.append('%s within the source: %s: %s' % (a, type(e).__name__, e))

    def act_(self, a, done):
        """On the stream's own thread; `done` items were delivered in this session."""
        sb, mine = self.stream(), self.opens
        if sb is None:
            return                            # (not there yet: the very first read of a shared one)
        want = [(i, mine) for i in range(1, done + 1)]
        if a == 'running':
            r = sb.mk_reader()
            was = r.is_stopped
            got = sb.is_running
            if was and got:
                self.problems.append('running after the session was stopped')
            if not got and not r.is_stopped:
                self.problems.append('not running although the session is not stopped')
        elif a == 'info':
            if sb.source_reader_info != {'session': mine}:
                self.problems.append('in session %d the info is %r' % (mine, sb.source_reader_info))
        elif a == 'make':
            r = sb.mk_reader()
            got = r.range(0, 99, peek=True)
            if r.source_reader_info != {'session': mine} or got[:len(want)] != want and self.auto or len(got) > len(want) + (done < self.n):
                self.problems.append('a reader made in session %d after %r sees %r of %r' % (mine, want, got, r.source_reader_info))
        elif a == 'read':
            r = sb.mk_reader()
            for x in want if self.auto else ():
                y = r.read(ignore_no_item_found=True)
                if y != x:
                    self.problems.append('read gave %r instead of %r' % (y, x))
            r.read(n=2, ignore_no_item_found=True), r.tail(ignore_no_item_found=True)
        elif a == 'next':
            try:
                x = next(sb)
                if x is not None and x[1] != mine:
                    self.problems.append('next gave %r in session %d' % (x, mine))
            except StopIteration:
                pass
        elif a == 'drop':
            if sb.mk_reader().range(0, 99, peek=True):
                sb.drop(1)
        elif a == 'stop':
            self.stopped_inside = True
            sb.stop()
            if sb.is_running:
                self.problems.append('running after its own stop')
        elif a == 'wait':
            while sb.is_running:
                v_sleep(0.25)
        elif a == 'wait for the end':
            r = sb.mk_reader()
            while not r.is_stopped:
                v_sleep(0.25)
        elif a == 'shut':
            while self.given:
                self.given.pop().close()
        elif a == 'again':
            for r in list(self.past):
                r.close()
        elif a == 'slow':
            v_sleep(1.6)
        elif a == 'attach':
            r = sb.mk_reader()
            sb.attach_reader(r)
        else:
            raise AssertionError(a)

    def go(self, s):
        self.opens = self.closes = self.reads = 0
        self.stopped_inside = False
        self.given, self.past = [], []
        self.src = self.make()
        self.sb = None
        self.rs = []
        if self.kind == 'plain':
            self.sb = StreamBuffer(self.src, maxlen=10, auto_drop=self.auto, sleep_time_on_read_none_s=0.3)
        else:
            self.src.configure_buffer(maxlen=10, auto_drop=self.auto, sleep_time_on_read_none_s=0.3)
        self.started = 0
        th = None
        if self.other:
            self.do('start')
            th = s.spawn(lambda: [self.do(o) for o in self.other], 'other')
        s.region(True)
        for o in self.ops:
            self.do(o)
        if th:
            s.join(th)
        s.region(False)
        if self.kind == 'plain':
            self.sb.stop()
            self.sb.join()
        else:
            for rs in (self.rs, self.given):
                while rs:
                    rs.pop().close()
            v_sleep(5)
            if self.src._stream_buffer is not None:
                self.src._stream_buffer.join()
        self.expect(self.opens == self.closes, 'opened %d and closed %d times' % (self.opens, self.closes))
        self.expect(self.other or 'give' in self.ops or self.opens == self.started, '%d sessions, %d starts' % (self.opens, self.started))
        self.outcome = repr((self.opens, self.reads))

    def do(self, o):
        sb = self.sb
        if o == 'nap':
            v_sleep(0.7)
        elif o == 'start':
            if self.kind == 'plain':
                sb.start()
                self.started += 1
            else:
                if not self.rs:
                    self.started += 1
                    self.rs.append(self.src.open_reader())
        elif o == 'stop':
            if self.kind == 'plain':
                sb.stop()
            elif self.rs:
                r = self.rs.pop()
                self.past.append(r)
                r.close()
        elif o == 'give':
            self.given.append(self.src.open_reader())
        elif o == 'ask':
            b = self.stream()
            b.is_running, b.source_reader_info
        elif o == 'look':
            r = self.stream().mk_reader()
            k = r.source_reader_info['session']
            got = r.range(0, 99, peek=True)
            if self.auto and got != [(i, k) for i in range(1, len(got) + 1)]:
                self.problems.append('a reader of session %d sees %r' % (k, got))
        elif o == 'all':
            # a session that nobody stops delivers everything
            v_sleep(12)
            r = self.stream().mk_reader()
            got = r.range(0, 99, peek=True)
            if self.auto and got != [(i, self.opens) for i in range(1, self.n + 1)] and not any(a in ('stop', 'wait', 'wait for the end') for x in self.acts.values() for a in x):
                self.problems.append('session %d delivered %r' % (self.opens, got))
        else:
            raise AssertionError(o)


def run(rep):
    one = ['running', 'info', 'make', 'read', 'next', 'stop', 'wait', 'wait for the end', 'attach']
    acts = {}
    for a in one:
        for k in (1, 2, EACH, 'close'):
            if a in ('wait', 'wait for the end') and k == EACH:
                continue
            acts['%s in %s' % (a, 'read %s' % (k or 'each') if k != 'close' else k)] = {k: (a,)}
    for a in ('running', 'make', 'next', 'info'):
        acts['slow, then %s' % a] = {2: ('slow', a)}
        acts['slow, then %s, in close' % a] = {'close': ('slow', a)}
    acts['all'] = {EACH: ('running', 'info', 'make', 'read', 'next'), 'close': ('running', 'info', 'make', 'read', 'next')}
    acts['stop, then all'] = {2: ('stop', 'running', 'info', 'make', 'read', 'next'), 'close': ('stop', 'running')}
    progs = [('start', 'nap', 'stop'), ('start', 'nap', 'start', 'nap', 'stop'), ('start', 'start', 'all', 'stop'), ('start', 'nap', 'stop', 'start', 'nap', 'look', 'start', 'all'),
             ('start', 'look', 'ask', 'nap', 'look', 'ask'), ('start', 'nap', 'start', 'ask', 'look', 'start', 'all', 'stop')]
    hs = []
    for (n, a), p in itertools.product(acts.items(), progs):
        hs.append(('%s; %s' % (n, ' '.join(p)), lambda a=a, p=p: Within(a, p)))
    for n, a in {'drop': {EACH: ('drop',)}, 'drop, ask': {EACH: ('drop', 'running', 'make'), 'close': ('drop',)}}.items():
        hs += [('%s; %s' % (n, ' '.join(p)), lambda a=a, p=p: Within(a, p, auto=False, n=6)) for p in progs]
    rep.explore_many('one user', hs, bound=rep.q(1, 2), gran='sync')
    hs = []
    for (n, a), p in itertools.product(acts.items(), progs):
        hs.append(('%s; %s' % (n, ' '.join(p)), lambda a=a, p=p: Within(a, p, kind='shared')))
    rep.explore_many('stream sources', hs, bound=rep.q(1, 2), gran='sync')
    hs = []
    shut = {'shut in read 1': {1: ('shut',)}, 'shut in read 2': {2: ('shut',)}, 'shut in each': {EACH: ('shut',)}, 'shut in close': {'close': ('shut',)},
            'slow, then shut': {2: ('slow', 'shut')}, 'slow, then shut, in close': {'close': ('slow', 'shut')},
            'stop, then slow, then shut': {2: ('stop', 'slow', 'shut')}, 'stop and shut in close': {2: ('stop', 'slow'), 'close': ('shut',)},
            'again in each': {EACH: ('again',)}, 'slow, then again': {2: ('slow', 'again')}, 'slow, then again, in close': {'close': ('slow', 'again')},
            'wait for the end, then shut': {2: ('wait for the end', 'shut')}, 'wait, then shut': {2: ('wait', 'shut', 'running', 'make')},
            'shut, then all': {2: ('shut', 'running', 'info', 'make', 'next')}, 'wait, then shut, in close': {'close': ('wait', 'slow', 'shut')}}
    for i, (n, a) in enumerate(shut.items()):
        for j, p in enumerate([('give', 'nap', 'give'), ('start', 'give', 'nap', 'stop', 'give'), ('give', 'start', 'nap', 'nap', 'give', 'stop', 'start'),
                               ('start', 'nap', 'stop', 'give', 'nap', 'start'), ('start', 'give', 'stop', 'start', 'stop', 'give', 'give')]):
            hs.append(('%s; %s' % (n, ' '.join(p)), lambda a=a, p=p: Within(a, p, kind='shared')))
            if (i + j) % 3 == 0 or rep.thorough:
                hs.append(('%s; %s | give' % (n, ' '.join(p)), lambda a=a, p=p: Within(a, p, kind='shared', other=('nap', 'give'))))
            if (i + j) % 3 == 1 or rep.thorough:
                hs.append(('%s; %s | stop' % (n, ' '.join(p)), lambda a=a, p=p: Within(a, p, kind='shared', other=('nap', 'nap', 'stop', 'start'))))
    rep.explore_many('readers closed by the source', hs, bound=rep.q(1, 2), gran='sync')
    hs = []
    for i, (n, a) in enumerate(acts.items()):
        for j, (p, q) in enumerate(((('nap', 'start', 'nap'), ('ask', 'look', 'ask')), (('stop', 'start'), ('look', 'nap', 'ask')), (('start',), ('start', 'ask')), (('nap', 'stop'), ('start', 'look')))):
            if rep.thorough or (i + j) % 2:
                hs.append(('%s; %s | %s' % (n, ' '.join(p), ' '.join(q)), lambda a=a, p=p, q=q: Within(a, p, other=q)))
    rep.explore_many('two users', hs, bound=rep.q(1, 2), gran='sync')
