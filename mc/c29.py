"""C29: streams are independent of each other, and one stream's reader can be another stream's source."""
import itertools

from . import sched
from .c03 import Programs, RWLock, RWLockSortedDeque
from .c25 import Base
from .env import SourceReader, StreamBuffer, StreamSource
from .sched import v_sleep
from stream2py.simply import mk_stream_buffer


class Gate:
    """Where a stream of the harness stands still until it is let go."""

    def __init__(self, where=None, fail=False):
        self.where, self.fail, self.shut, self.here = where, fail, True, False

    def pass_(self, where):
        if where == self.where and self.shut:
            self.here = True
            if self.fail:
                self.shut = False
                raise RuntimeError('the failure at ' + where)
            sched.ACTIVE.block(lambda: not self.shut, None, 'gate')


class GateKey(int):
    """A key whose comparison can stand still."""
    gate = None

    def __lt__(self, o):
        if self.gate or getattr(o, 'gate', None):
            (self.gate or o.gate).pass_('compare')
        return int(self) < int(o)

    def __gt__(self, o):
        if self.gate or getattr(o, 'gate', None):
            (self.gate or o.gate).pass_('compare')
        return int(self) > int(o)


class Members:
    """The members of a source; items (tag, i) for i = 1..n in every session."""

    def set(self, tag, n, gate=None):
        self.tag, self.n, self.gate, self.left, self.opens, self.closes = tag, n, gate or Gate(), 0, 0, 0
        return self

    def open(self):
        self.gate.pass_('open')
        self.opens += 1
        self.left = self.n

    def read(self):
        if self.left <= self.n - 1:
            self.gate.pass_('read')
        if self.left:
            self.left -= 1
            return (self.tag, self.n - self.left)

    def close(self):
        self.gate.pass_('close')
        self.closes += 1

    sleep_time_on_read_none_s = 0.77

    @property
    def info(self):
        self.gate.pass_('info')
        return {'tag': self.tag}

    def key(self, x):
        if x[1] > 1:
            self.gate.pass_('key')
        return x[1]


class Plain(Members, SourceReader):
    pass


class Plain2(Members, SourceReader):
    pass


class Shared(Members, StreamSource):
    pass


class Shared2(Members, StreamSource):
    pass


class One:
    """One stream of one of the kinds, and what a program does with it."""

    def __init__(self, kind, tag, n, gate=None):
        self.kind, self.tag, self.n = kind, tag, n
        self.src = {'plain': Plain, 'plain2': Plain2, 'shared': Shared, 'shared2': Shared2, 'simply': Plain}[kind]().set(tag, n, gate)
        self.sb = None
        self.made = False

    def start(self):
        s = self.src
        if self.kind.startswith('plain'):
            if self.sb is None:
                self.sb = StreamBuffer(s, maxlen=None)
            self.sb.start()
            self.r = self.sb.mk_reader()
        elif self.kind.startswith('shared'):
            if not self.made:
                s.configure_buffer(maxlen=None)
                self.made = True
            self.r = s.open_reader()
        else:
            self.cm = mk_stream_buffer(read_stream=lambda i: s.read(), open_stream=s.open, close_stream=lambda o: s.close(), key=s.key,
                                       info=lambda o: s.info, enumerate_data=False, maxlen=None)
            self.sb = self.cm.__enter__()
            self.r = self.sb.mk_reader()

    def use(self):
        """Everything it delivers."""
        r, out = self.r, []
        out.append(r.read())
        for x in r:
            out.append(x)
            break
        for _ in range(12):
            if len(out) < self.n:
                x = r.read(ignore_no_item_found=True)
                if x is None:
                    v_sleep(1)
                else:
                    out.append(x)
        r.range(0, 9)
        r.tail()
        r.head()
        r.source_reader_info
        return out

    def stop(self):
        if self.kind.startswith('plain'):
            self.sb.stop()
        elif self.kind.startswith('shared'):
            self.r.close()
        else:
            self.cm.__exit__(None, None, None)


class Apart(Base):
    """Stream a stands still (or fails) at one point; stream b, begun before or after that, lives as if alone; then a goes on."""

    def __init__(self, a, b, where, fail, when, n=3):
        self.a, self.b, self.where, self.fail, self.when, self.n = a, b, where, fail, when, n

    def go(self, s):
        n = self.n
        gate = Gate(self.where, self.fail)
        a = One(self.a, 'a', n, gate)
        b = One(self.b, 'b', n)
        self.expected = {}
        self.failed = []

        def live(one, pause=None):
            one.start()
            v_sleep(2)
            if one is a and self.where == 'compare':
                k = GateKey(0)
                k.gate = gate
                one.r.range(k, 9, peek=True)
            got = one.use()
            if pause:
                pause()
            one.stop()
            v_sleep(2)
            return got

        def life_of_a():
            try:
                self.a_got = live(a)
            except RuntimeError as e:
                self.failed.append(e)
            except (IndexError, StopIteration, ValueError) as e:     # of a stream that failed
                if not self.fail:
                    raise
                self.failed.append(e)

        self.a_got = None
        full = [('b', i) for i in range(1, n + 1)]
        if self.when == 'before':
            b.start()
            v_sleep(2)
        th = s.spawn(life_of_a, 'a')
        if self.fail:
            v_sleep(40)
        else:
            s.block(lambda: gate.here, s.now + 60, 'a at the gate')
        self.expect(gate.here, 'harness: a never came to %s' % self.where)
        s.region(True)
        if self.when == 'before':
            got = b.use()
            b.stop()
            v_sleep(2)
        else:
            got = live(b)
        self.expect(got == full, 'b delivered %r' % (got,))
        self.expect(b.src.opens == b.src.closes == 1, 'b opened %d and closed %d times' % (b.src.opens, b.src.closes))
        got = live(b)                                                # and again
        s.region(False)
        self.expect(got == full, 'b delivered %r the second time' % (got,))
        self.expect(b.src.opens == b.src.closes == 2, 'b opened %d and closed %d times in two sessions' % (b.src.opens, b.src.closes))
        if not self.fail:
            self.expect(self.where == 'close' or self.a_got is None, 'harness: a did not stand still')
            gate.shut = False
            s.join(th)
            v_sleep(2)
            self.expect(not self.failed, 'a raised %r' % self.failed)
            self.expect(self.a_got == [('a', i) for i in range(1, n + 1)], 'a delivered %r' % (self.a_got,))
            self.expect(a.src.opens == a.src.closes == 1, 'a opened %d and closed %d times' % (a.src.opens, a.src.closes))
        self.outcome = repr((got, self.a_got))


class Beside(Programs):
    """Programs on one lock while another is held by readers or a writer, or waited for."""

    def __init__(self, progs, held):
        super().__init__(progs)
        self.held = held
        self.other = type(self.lock)() if isinstance(self.lock, RWLockSortedDeque) else RWLock()

    def main(self, s):
        s.region(False)
        other, got = self.other, []
        for h in self.held:
            if h == 'r':
                other.reader_acquire()
            elif h == 'w':
                other.writer_acquire()
        waiting = None
        if self.held.endswith('+'):                # and a writer waits for it
            def wait():
                other.writer_acquire()
                got.append('w')
                other.writer_release()
            waiting = s.spawn(wait, 'waiting')
            v_sleep(0.1)
        s.region(True)
        super().main(s)
        if got:
            self.bad.append('the writer waiting for the other lock was let in')
        for h in self.held:
            if h == 'r':
                other.reader_release()
            elif h == 'w':
                other.writer_release()
        if waiting:
            s.join(waiting)
        self.lock, lock = other, self.lock
        self.after(s)
        self.lock = lock


class Link:
    """A source that reads from a reader of another stream. `owner`: it starts and ends that stream, else somebody else does."""

    def set(self, up, how, owner):
        self.up, self.how, self.owner, self.r, self.opens, self.closes = up, how, owner, None, 0, 0
        return self

    def open(self):
        self.opens += 1
        if self.owner and not isinstance(self.up, StreamSource):
            self.up.start()
        self.r = self.up.open_reader() if isinstance(self.up, StreamSource) else self.up.mk_reader()

    def read(self):
        if self.how == 'read':
            return self.r.read(ignore_no_item_found=True)
        if self.how == 'next':
            try:
                return next(self.r)
            except StopIteration:
                return None
        if self.how == 'for':                      # waits for the next item, or the end
            for x in self.r:
                return x
            return None
        if self.how == 'range':
            return tuple(self.r.range(0, 99, only_new_items=True, ignore_no_item_found=True) or ()) or None
        raise AssertionError(self.how)

    def close(self):
        self.closes += 1
        if isinstance(self.up, StreamSource):
            self.r.close()
        elif self.owner:
            self.up.stop()

    sleep_time_on_read_none_s = 0.31

    @property
    def info(self):
        return {'of': self.r.source_reader_info}

    def key(self, x):
        while isinstance(x[-1], tuple):
            x = x[-1]
        return x[1]


class PlainLink(Link, SourceReader):
    pass


class SharedLink(Link, StreamSource):
    pass


def flat(x):
    if isinstance(x[0], tuple):
        for y in x:
            yield from flat(y)
    else:
        yield x


class Chain(Base):
    """stream -> stream (-> stream); `fan` streams at the last stage. begin/end: in which order they are started and ended."""

    def __init__(self, up, how, owner, end, depth=1, fan=1, shared=False, n=2, wait=20, maxlen=100, twice=False, choose=True):
        self.up, self.how, self.owner, self.end, self.depth, self.fan, self.shared, self.n, self.wait, self.maxlen, self.twice, self.choose = (
            up, how, owner, end, depth, fan, shared, n, wait, maxlen, twice, choose)

    def go(self, s):
        src = (Shared if self.up == 'shared' else Plain)().set('u', self.n)
        if self.up == 'shared':
            src.configure_buffer(maxlen=None)
        first = src if self.up == 'shared' else StreamBuffer(src, maxlen=None)
        stages = [[first]]
        links = []
        for d in range(self.depth):
            now = []
            for f in range(self.fan if d == self.depth - 1 else 1):
                if self.shared:
                    ln = SharedLink().set(stages[-1][0], self.how, self.owner)
                    ln.configure_buffer(maxlen=self.maxlen)
                    now.append(ln)
                else:
                    ln = PlainLink().set(stages[-1][0], self.how, self.owner)
                    now.append(StreamBuffer(ln, maxlen=self.maxlen))
                links.append(ln)
            stages.append(now)
        self.src, self.links = src, links
        for session in range(1, 2 + self.twice):
            s.region(self.choose)
            self.session(s, stages, session)
            s.region(False)
        self.outcome = repr(self.seen)

    def session(self, s, stages, session):
        self.seen = []
        every = [x for st in stages for x in st]
        last = stages[-1]
        if not self.owner:
            for x in every:
                if not isinstance(x, StreamSource):
                    x.start()
            readers = [x.open_reader() if isinstance(x, StreamSource) else x.mk_reader() for x in last]
        else:
            readers = []
            for x in last:
                if isinstance(x, StreamSource):
                    readers.append(x.open_reader())
                else:
                    x.start()
                    readers.append(x.mk_reader())
        v_sleep(0.01)
        s.region(False)
        want = [('u', i) for i in range(1, self.n + 1)]
        for r in readers:
            out = []
            while len(out) < self.n and s.now < session * 100 - 100 + self.wait:
                x = r.read(ignore_no_item_found=True)
                if x is None:
                    v_sleep(1)
                else:
                    out.extend(flat(x))
            self.seen.append(out)
            self.expect(out == want, 'session %d delivered %r' % (session, out))
        # the end, in one of the orders
        s.region(self.choose)

        def end(x):
            if isinstance(x, StreamSource):
                for r, y in zip(readers, last):
                    if y is x:
                        r.close()
            else:
                x.stop()
        order = [x for x in every if not isinstance(x, StreamSource) or x in last] if not self.owner else list(last)
        if self.end == 'down first':
            order.reverse()
        if self.end == 'at once':
            s.join(*[s.spawn(lambda x=x: end(x), 'ender') for x in order])
        else:
            for x in order:
                end(x)
        s.region(False)
        v_sleep(session * 100 - 30 - s.now)
        self.expect(self.src.opens == self.src.closes == session, 'the first source was opened %d and closed %d times in %d sessions'
                    % (self.src.opens, self.src.closes, session))
        for ln in self.links:
            self.expect(ln.opens == ln.closes == session, 'a link was opened %d and closed %d times in %d sessions' % (ln.opens, ln.closes, session))
        v_sleep(session * 100 - s.now)


def run(rep):
    hs = []
    for a, b in (('plain', 'plain'), ('plain', 'plain2'), ('shared', 'shared'), ('shared', 'shared2'), ('simply', 'simply'), ('plain', 'shared'),
                 ('shared', 'plain'), ('simply', 'shared'), ('plain', 'simply')):
        for where, fail, when in itertools.product(('open', 'info', 'read', 'key', 'compare', 'close'), (False, True), ('before', 'after')):
            if fail and where == 'compare':
                continue
            hs.append(('%s at %s of a %s stream; a %s stream begun %s' % ('a failure' if fail else 'a standstill', where, a, b, when),
                       lambda a=a, b=b, where=where, fail=fail, when=when: Apart(a, b, where, fail, when)))
    rep.explore_many('apart', hs, bound=rep.q(1, 2), gran='sync')
    hs = [('%s beside a lock with %s' % (' | '.join(ps), held), lambda ps=ps, held=held: Beside(ps, held))
          for ps in (('r', 'w'), ('w', 'w'), ('r', 'r', 'w'), ('R', 'W'), ('x', 'W'), ('X', 'R'), ('rw', 'wr')) for held in ('', 'r', 'rr', 'w', 'r+', 'rr+', 'w+')]
    rep.explore_many('locks', hs, bound=rep.q(1, 2), gran='sync')
    hs, deep = [], []
    for up, how, owner, end, depth, fan, shared, twice in itertools.product(
            ('plain', 'shared'), ('read', 'next', 'for', 'range'), (True, False), ('up first', 'down first', 'at once'), (1, 2), (1, 2), (False, True), (False, True)):
        if owner and (end == 'at once' or fan == 2 and up == 'plain' and depth == 1 or fan == 2 and depth == 2 and not shared or end == 'up first' and fan == 1):
            continue
        if how == 'for' and (owner or end == 'down first' or up == 'shared' or shared and depth == 2):
            continue                       # (its read waits until the other stream ends)
        (hs if depth == 1 and fan == 1 and not twice else deep).append(('%s, %s, %s, %s, depth %d, fan %d%s%s' % (up, how, 'owned' if owner else 'apart', end, depth, fan, ', sources' if shared else '', ', twice' if twice else ''),
                   lambda k=(up, how, owner, end, depth, fan, shared), twice=twice, c=depth == fan == 1 and not twice or rep.q(False, True): Chain(*k, twice=twice, choose=c)))
    rep.explore_many('chains', hs, bound=rep.q(1, 2), gran='sync')
    rep.explore_many('longer chains', deep, bound=0, gran='sync')
