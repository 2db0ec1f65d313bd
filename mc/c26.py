"""C26: whatever offers the six members of a source can be streamed, and nothing else is accepted."""
import functools
import itertools
import types
from dataclasses import dataclass, field
from typing import Any

from . import sched
from .c25 import Base
from .env import SourceReader, StreamBuffer
from .sched import v_sleep
from stream2py.protocols import Source

MEMBERS = ('open', 'read', 'close', 'info', 'key', 'sleep_time_on_read_none_s')


class Device:
    """What a source stands for: its own log, its own items, a key that is not the item's natural order."""

    def __init__(self, n, wait):
        self.n, self.wait = n, wait
        self.log = []
        self.left = []
        self.session = 0
        self.polls = []

    def open(self):
        self.session += 1
        self.log.append('open')
        self.left = [(-i, self.session) for i in range(self.n)]

    def read(self):
        if self.left:
            return self.left.pop(0)
        self.polls.append(sched.ACTIVE.now)
        return None

    def close(self):
        self.log.append('close')

    def info(self):
        return {'session': self.session}

    def key(self, x):
        return (x[1], -x[0])


def methods(d):
    class Duck:
        def open(self): d.open()
        def read(self): return d.read()
        def close(self): d.close()
        def key(self, data): return d.key(data)
        @property
        def info(self): return d.info()
        @property
        def sleep_time_on_read_none_s(self): return d.wait
    return Duck


def made_of(d, **more):
    """A class with the six members and more."""
    return type('Made', (methods(d),), more)()


def plain(d):
    return methods(d)()


def namespace(d):
    class Info(dict):
        """An info kept up to date by itself."""
    ns = types.SimpleNamespace(read=d.read, close=d.close, key=d.key, info={}, sleep_time_on_read_none_s=d.wait)

    def open():
        d.open()
        ns.info = d.info()
    ns.open = open
    return ns


def on_open(d):
    """Has what it takes only after it was opened."""
    ns = types.SimpleNamespace(read=no, close=no, key=no, info=None, sleep_time_on_read_none_s=d.wait)

    def open():
        d.open()
        ns.info, ns.read, ns.close, ns.key = d.info(), d.read, d.close, d.key
    ns.open = open
    return ns


def each_open(d):
    """Made anew by every open: what it had before is of no use for the new session."""
    ns = types.SimpleNamespace(read=no, close=no, key=no, info=None, sleep_time_on_read_none_s=d.wait)

    def open():
        d.open()
        mine = d.session

        def own(f):
            return lambda: f() if d.session == mine else no()

        def close():
            own(d.close)()
            ns.read = ns.close = no
        ns.info, ns.read, ns.close = d.info(), own(d.read), close
        ns.key = lambda x: d.key(x) if x[1] == mine else no()
    ns.open = open
    return ns


def statics(d):
    class Static:
        sleep_time_on_read_none_s = d.wait
        open = staticmethod(d.open)
        read = staticmethod(d.read)
        close = staticmethod(d.close)

        @classmethod
        def key(cls, data):
            return d.key(data)

        @property
        def info(self):
            return d.info()
    return Static()


def module(d):
    m = types.ModuleType('device')
    m.__dict__.update(vars(namespace(d)))

    def open():
        d.open()
        m.info = d.info()
    m.open = open
    return m


def partials(d):
    class P:
        def __init__(self):
            self.open = functools.partial(type(d).open, d)
            self.read = functools.partial(type(d).read, d)
            self.close = functools.partial(type(d).close, d)
            self.key = functools.partial(type(d).key, d)
            self.sleep_time_on_read_none_s = d.wait

        @property
        def info(self):
            return d.info()
    return P()


def slots(d):
    class S(methods(d)):
        __slots__ = ()
    return S()


def dataclassed(d):
    @dataclass(eq=True)                   # equal by value: not hashable
    class D:
        dev: Any = field(default=d, repr=False)
        sleep_time_on_read_none_s: Any = d.wait

        def open(self): self.dev.open()
        def read(self): return self.dev.read()
        def close(self): self.dev.close()
        def key(self, data): return self.dev.key(data)
        @property
        def info(self): return self.dev.info()
    return D()


def protocol(d):
    class Told(Source):
        def open(self): d.open()
        def read(self): return d.read()
        def close(self): d.close()
        def key(self, data): return d.key(data)
        @property
        def info(self): return d.info()
        @property
        def sleep_time_on_read_none_s(self): return d.wait
    return Told()


def derived(d):
    class Reader(SourceReader):
        def open(self): d.open()
        def read(self): return d.read()
        def close(self): d.close()
        def key(self, data): return d.key(data)
        info = property(lambda self: d.info())
        sleep_time_on_read_none_s = property(lambda self: d.wait)
    return Reader()


def no(*a, **k):
    raise TypeError('this object is not meant for that')


SHAPES = dict(
    plain=plain, namespace=namespace, statics=statics, module=module, partials=partials, slots=slots, on_open=on_open, each_open=each_open, dataclassed=dataclassed,
    protocol=protocol, derived=derived,
    empty=lambda d: made_of(d, __len__=lambda self: 0),
    false=lambda d: made_of(d, __bool__=lambda self: False),
    truthless=lambda d: made_of(d, __bool__=no),
    incomparable=lambda d: made_of(d, __eq__=no, __ne__=no, __hash__=None),
    callable=lambda d: made_of(d, __call__=no),
    iterable=lambda d: made_of(d, __iter__=no, __next__=no),
    context=lambda d: made_of(d, __enter__=no, __exit__=no),
    list=lambda d: type('L', (methods(d), list), {})(),
    dict=lambda d: type('L', (methods(d), dict), {})(),
    closed=lambda d: made_of(d, closed=property(no), start=no, stop=no, __repr__=no, __str__=no),
)


class Streamed(Base):
    """Sessions of one source of a given shape."""

    def __init__(self, shape, wait, given, maxlen, n, sessions):
        self.shape, self.wait, self.given, self.maxlen, self.n, self.sessions = shape, wait, given, maxlen, n, sessions

    def go(self, s):
        d = self.d = Device(self.n, self.wait)
        src = SHAPES[self.shape](d)
        sb = StreamBuffer(src, maxlen=self.maxlen, sleep_time_on_read_none_s=self.given)
        self.expect(sb.source_reader is src, 'the source given is not the source it has')
        self.expect(d.log == [], 'already %r' % d.log)
        for k in range(1, self.sessions + 1):
            d.polls = []
            with sb:
                r = sb.mk_reader()
                v_sleep(4)
                want = [(-i, k) for i in range(self.n)]
                kept = want if self.maxlen is None else want[-self.maxlen:]
                self.expect(r.range((k, 0), (k, 99), peek=True) == kept, 'retained %r' % (r.range((0,), (99,), peek=True),))
                self.expect(r.source_reader_info == {'session': k} and sb.source_reader_info == {'session': k}, 'info %r' % (r.source_reader_info,))
                self.expect(d.log == ['open', 'close'] * (k - 1) + ['open'], 'while it runs %r' % d.log)
                gaps = {round(b - a, 6) for a, b in zip(d.polls, d.polls[1:])}
                w = self.given if self.given is not None else self.wait if isinstance(self.wait, (int, float)) else 0.3
                self.expect(gaps == {round(w, 6)}, 'polls every %r s, expected %r' % (sorted(gaps), w))
            v_sleep(4)
            self.expect(list(r) == kept, 'read after the stop')
            self.expect(r.last_key == (k, self.n - 1), 'key %r' % (r.last_key,))
            self.expect(d.log == ['open', 'close'] * k, 'after the stop %r' % d.log)
        self.outcome = tuple(d.log)


class Refused(Base):
    """An object that lacks members."""

    def __init__(self, shape, lacks):
        self.shape, self.lacks = shape, lacks

    def go(self, s):
        d = Device(2, None)
        if self.shape == 'class':
            m = {k: v for c in (methods(d),) for k, v in vars(c).items() if k in MEMBERS}
            for k in self.lacks:
                del m[k]
            src = type('Lacking', (), m)()
        elif self.shape == 'namespace':
            src = namespace(d)
            for k in self.lacks:
                delattr(src, k)
        elif self.shape == 'callable':
            m = {k: v for k, v in vars(methods(d)).items() if k in MEMBERS and k not in self.lacks}
            src = type('Lacking', (), dict(m, __call__=no, __iter__=no, __enter__=no, __exit__=no, closed=True))()
        else:
            src = self.shape
        try:
            StreamBuffer(src, maxlen=2)
        except Exception as e:
            self.outcome = type(e).__name__
        else:
            self.problems.append('accepted without %s' % ', '.join(self.lacks))
        self.expect(d.log == [], 'used: %r' % d.log)


def run(rep):
    hs = [('%s, waiting %r, given %r, maxlen %r, %d items, %d sessions' % c, lambda c=c: Streamed(*c))
          for c in itertools.product(SHAPES, (None, 0.25, 1, 'often'), (None, 0.4, 2), (None, 3), (1, 5), rep.q((1, 2), (1, 2, 3)))]
    rep.explore_many('sources', hs, bound=0, gran='sync')
    hs = [('%s without %s' % (sh, lacks), lambda sh=sh, lacks=lacks: Refused(sh, lacks))
          for sh in ('class', 'namespace', 'callable') for n in range(1, 7) for lacks in itertools.combinations(MEMBERS, n)]
    hs += [('%r' % (o,), lambda o=o: Refused(o, MEMBERS)) for o in (None, 0, '', 'source', [], [1, 2], {}, range(3), int, SourceReader.mro)]
    hs += [('a file', lambda: Refused(__import__('io').BytesIO(b'abc'), ('info', 'key', 'sleep_time_on_read_none_s')))]
    rep.explore_many('refused', hs, bound=0, gran='sync')
