"""C20: source readers and stream sources iterate their data in order and report closed truthfully."""
import itertools

from . import load, sched
from .c25 import Base
from .hist import bfs_many, canon, cases
from .sched import real_time, v_sleep, v_time

load.load()
from stream2py import SourceReader  # noqa: E402
from stream2py.source_reader import QuickSourceReader  # noqa: E402
from stream2py.stream_source import StreamSource  # noqa: E402
from stream2py import util  # noqa: E402,F401

EPS = 1e-7


class End(Exception):
    """The script is used up."""


VALUES = {'a': 'a', '1': 1, '0': 0, 'empty': '', 'false': False, 'list': [], 'bad': -1, 'None': None, 'tuple': (None,)}


class Script:
    """read() follows a script; logs the time of every read."""

    def setup(self, script):
        self.script = list(script)
        self.at = []
        self.opens = self.closes = 0
        self.told = []
        return self

    def read(self):
        self.at.append(sched.v_monotonic())
        if not self.script:
            raise End
        x = self.script.pop(0)
        if isinstance(x, str) and x.startswith('slow '):
            v_sleep(0.25)
            x = x[5:]
        return VALUES[x]

    def key(self, data):
        return data


class Plain(Script, SourceReader):
    def open(self):
        self.opens += 1

    def close(self):
        self.closes += 1


class Quick(Script, QuickSourceReader):
    pass


class Filter(Quick):
    def is_valid_data(self, data):
        return data is not None and data != -1


class NoneValid(Quick):
    """Everything is valid, None included."""

    def is_valid_data(self, data):
        return True


class Told(Filter):
    """Takes its own action when there is no data."""

    def when_no_data(self, _next=None):
        self.told.append(_next)
        v_sleep(0.5)


class Stream(Script, StreamSource):
    def open(self):
        self.opens += 1

    def close(self):
        self.closes += 1

    @property
    def info(self):
        return {}


CLASSES = {c.__name__: c for c in (Plain, Quick, Filter, NoneValid, Told, Stream)}


def valid(kind, v):
    if kind == 'NoneValid':
        return True
    if kind in ('Filter', 'Told'):
        return v is not None and v != -1
    return v is not None


def value(x):
    return VALUES[x[5:] if x.startswith('slow ') else x]


def check_iter(c):
    """Iterates a script to its end, changing the waiting time on the way."""
    kind, script, sleep, change, two = c
    src = CLASSES[kind]().setup(script)
    out = []
    wait = 0.001
    if sleep is not None:
        src.set_sleep_time_on_iter_none(sleep)
        wait = sleep
    its = [iter(src), iter(src)] if two else [iter(src)]
    # what has to happen
    t = sched.v_monotonic()
    want, want_at, told, settings = [], [], [], []
    for i, x in enumerate(script):
        want_at.append(t)
        if x.startswith('slow '):
            t += 0.25
        v = value(x)
        if valid(kind, v):
            want.append(v)
            if change is not None and len(want) == 1 and kind != 'Told':
                wait = change
        elif kind == 'Told':
            told.append(v)
            t += 0.5
        else:
            t += wait
    want_at.append(t)
    got = []
    for n in range(len(script) + 3):
        try:
            x = next(its[n % len(its)])
        except End:
            break
        except StopIteration:
            out.append('the iteration ended after %r' % (got,))
            break
        got.append(x)
        if change is not None and len(got) == 1:
            src.set_sleep_time_on_iter_none(change)
    if len(got) != len(want) or any(a is not b and a != b or type(a) is not type(b) for a, b in zip(got, want)):
        out.append('iterating gave %r, the data are %r' % (got, want))
    elif len(src.at) != len(want_at) or any(abs(a - b) > EPS for a, b in zip(src.at, want_at)):
        out.append('reads at %r, expected at %r' % (src.at, want_at))
    if src.told != told:
        out.append('no-data action for %r, expected %r' % (src.told, told))
    return out, len(script), (kind, len(want), sleep)


# ------------------------------------------------------------------ closed flag
class Body(Exception):
    pass


class Flag:
    """History of context operations on one reader."""

    def __init__(self, kind):
        self.kind = kind
        if kind == 'plain':
            self.r = Plain().setup(['a'] * 50)
        elif kind == 'quick':
            self.r = Quick().setup(['a'] * 50)
        else:
            class Counted(QuickSourceReader):
                def open(self):
                    self.opens += 1
                    super().open()

                def close(self):
                    self.closes += 1
                    super().close()

                def read(self):
                    return 'a'
            self.r = Counted()
            self.r.opens = self.r.closes = 0
        self.r2 = type(self.r)()          # another instance: not affected
        self.closed = True
        self.opens = self.closes = 0
        self.faults = 0

    def ops(self):
        o = [('enter',), ('exit',), ('exit', 'error'), ('with',), ('with', 'error'), ('with', 'BaseException'), ('alias',)]
        if self.kind != 'plain':
            o += [('open',), ('close',)]
        else:
            o += [('open fails',)]
        return o

    def apply(self, o):
        r = self.r
        out = []
        k = o[0]
        if k == 'enter':
            x = r.__enter__()
            if x is not r:
                out.append('entering gave %r' % (x,))
            self.closed = False
            self.opens += 1
        elif k == 'exit':
            e = Body() if len(o) > 1 else None
            x = r.__exit__(type(e) if e else None, e, None)
            if x:
                out.append('leaving suppresses the error')
            self.closed = True
            self.closes += 1
        elif k == 'with':
            e = None if len(o) == 1 else Body() if o[1] == 'error' else KeyboardInterrupt()
            end = None
            try:
                with r as x:
                    if x is not r:
                        out.append('entering gave %r' % (x,))
                    if r.closed is not False:
                        out.append('in the context closed is %r' % (r.closed,))
                    if e:
                        raise e
            except BaseException as x:
                end = x
            if end is not e:
                out.append('the block raised %r, the body %r' % (end, e))
            self.opens += 1
            self.closes += 1
            self.closed = True
        elif k == 'alias':
            r.enter()
            if r.closed is not False:
                out.append('after enter() closed is %r' % (r.closed,))
            r.exit(None, None, None)
            self.opens += 1
            self.closes += 1
            self.closed = True
        elif k == 'open fails':
            was, r.open = r.open, self.fail
            try:
                with r:
                    out.append('the body ran although open failed')
            except Body:
                pass
            except Exception as e:
                out.append('open failed: %r' % (e,))
            del r.open
        elif k == 'open':
            r.open()
            self.opens += 1
            self.closed = False
        elif k == 'close':
            r.close()
            self.closes += 1
            self.closed = True
        return out

    def fail(self):
        raise Body

    def check(self):
        out = []
        if self.r.closed is not self.closed:
            out.append('closed is %r, expected %r' % (self.r.closed, self.closed))
        if self.r2.closed is not True:
            out.append('another reader is open')
        if self.kind != 'quick' and (self.r.opens, self.r.closes) != (self.opens, self.closes):
            out.append('%d opens and %d closes, expected %d and %d' % (self.r.opens, self.r.closes, self.opens, self.closes))
        return out

    def canon(self):
        d = {k: v for k, v in self.r.__dict__.items() if k not in ('open_time', 'open_instance', 'open', 'at', 'script')}
        return canon(d, self.closed, self.r.opens if self.kind != 'quick' else 0, self.opens, self.closes)


def check_open_while_closed(c):
    """closed during open() and close() themselves of a context, and after a failing one."""
    fault, = c
    seen = []

    class R(Plain):
        def open(self):
            seen.append(('open', self.closed))
            super().open()

        def close(self):
            seen.append(('close', self.closed))
            super().close()

    r = R().setup([])
    out = []
    try:
        with r:
            seen.append(('body', r.closed))
            if fault:
                raise Body
    except Body:
        if not fault:
            out.append('raised')
    if [s for s in seen if s[0] == 'body'] != [('body', False)] or r.closed is not True or [s[0] for s in seen] != ['open', 'body', 'close']:
        out.append('closed was %r, at last %r' % (seen, r.closed))
    return out, 2, fault


def check_clock(c):
    """Timestamps at many clock readings."""
    who, wait = c
    v_sleep(wait)
    cls = {'SourceReader': SourceReader, 'Quick': Quick, 'Plain': Plain, 'StreamSource': StreamSource, 'Stream': Stream}[who]
    out = []
    objs = [cls]
    if who in ('Quick', 'Plain', 'Stream'):
        objs.append(cls().setup([]))
    for o in objs:
        r0, t0 = real_time(), v_time()
        x = o.get_timestamp()
        r1, t1 = real_time(), v_time()
        if type(x) is not int:
            out.append('timestamp %r' % (x,))
        elif not (t0 * 1e6 - 5 <= x <= t1 * 1e6 + 5) and not (r0 * 1e6 - 5 <= x <= r1 * 1e6 + 5):
            out.append('timestamp %r, the clock shows %r' % (x, t1))
    if who == 'Quick':
        q = objs[1]
        if q.open_time is not None:
            out.append('open_time before open: %r' % (q.open_time,))
        t0, r0 = v_time(), real_time()
        q.open()
        v_sleep(3)
        i = q.info
        if not abs(q.open_time - t0 * 1e6) <= 5 and not abs(q.open_time - r0 * 1e6) <= 1e6 or i.get('open_time') != q.open_time:
            out.append('open_time is %r, opened at %r, info %r' % (q.open_time, t0, i))
    return out, 1, who


class OnlyRead(QuickSourceReader):
    def __init__(self, values):
        self.values, self.k = values, 0

    def read(self):
        self.k += 1
        return self.values[self.k - 1] if self.k <= len(self.values) else None


class Streamed(Base):
    """A quick reader, which has only a read method of its own, in a stream: sessions, and a direct use before and after."""

    def __init__(self, script, first, sessions, shared):
        self.script, self.first, self.sessions, self.shared = script, first, sessions, shared

    def go(self, s):
        q = OnlyRead([VALUES[x] for x in self.script])
        if self.first:
            with q:
                self.expect(q.closed is False, 'closed in its context')
        sb = None
        for k in range(self.sessions):
            q.k = 0
            v_sleep(1.5)
            self.expect(q.closed is True, 'open before session %d' % k)
            if sb is None or not self.shared:
                sb = q.stream_buffer(maxlen=9)
            t = v_time() * 1e6
            with sb:
                r = sb.mk_reader()
                self.expect(q.closed is False, 'closed in session %d' % k)
                self.expect(q.read_idx is not None and abs(r.source_reader_info['open_time'] - t) <= 5, 'opened at %r, info %r' % (t, r.source_reader_info))
                v_sleep(3)
                want = [x for x in q.values if x is not None]
                self.expect(r.range(min(want), max(want), peek=True) == want, 'retained %r of %r' % (r.range(min(want), max(want), peek=True), want))
                for x in want:
                    self.expect(r.read() is x and r.last_key is x and q.key(x) is x, 'read %r with key %r, expected %r' % (r.last_item, r.last_key, x))
            v_sleep(3)
        self.expect(q.closed is True, 'open at the end')
        self.outcome = self.sessions


def check_exit(c):
    """A stream source without a buffer: exit closes it."""
    src = Stream().setup([])
    for i in range(c[0]):
        src.exit()
    return ([] if (src.opens, src.closes) == (0, c[0]) else ['closed %d times by %d exits' % (src.closes, c[0])]), 1, 'closed'


def run(rep):
    n = rep.q(4, 6)
    vals = ['a', '1', '0', 'empty', 'None', 'bad', 'tuple']
    scripts = [s for k in range(n) for s in itertools.product(vals, repeat=k)]
    slow = [s for k in range(1, n) for s in itertools.product(['slow a', 'slow None', 'None', 'false', 'list'], repeat=k)]
    late = [('None',) * k + ('a',) + ('None',) * j + ('1',) for k in (0, 1, 5, 20) for j in (0, 1, 5, 20)]
    cs = [(kind, s, sl, ch, two) for kind in CLASSES for s in scripts + slow for sl, ch in ((None, None), (0.3, 0))
          for two in (False, True)]
    cs += [(kind, s, sl, ch, two) for kind in CLASSES for s in late for sl in (None, 0, 0.1, 5) for ch in (None, 0, 0.7)
           for two in (False, True)]
    cases(rep, 'iterating every script', cs, check_iter)
    bfs_many(rep, [('contexts of a %s reader' % k, (lambda k=k: Flag(k)), rep.q(4, 6)) for k in ('plain', 'quick', 'counted')])
    cases(rep, 'a context', [(False,), (True,)], check_open_while_closed)
    cases(rep, 'clock', [(w, t) for w in ('SourceReader', 'Quick', 'Plain', 'StreamSource', 'Stream')
                         for t in (0, 1e-6, 0.001, 0.25, 0.999999, 1.0, 59.5, 123456.789)], check_clock)
    cases(rep, 'leaving an unused stream source', [(1,), (2,)], check_exit)
    hs = [('%s, in a context before: %s, %d sessions, one stream: %s' % c, lambda c=c: Streamed(*c))
          for c in itertools.product((('0', '1'), ('None', '1', 'None'), ('a',), ('empty', 'None', 'a'), ('bad', '0', '1')), (False, True), (1, 2, 3), (False, True))]
    rep.explore_many('quick readers in a stream', hs, bound=rep.q(0, 1), gran='sync')
