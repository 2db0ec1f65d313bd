"""C27: items are opaque and keys need only an order: what they are changes nothing but what is handed out."""
import datetime
import fractions
import functools
import itertools
import threading

from . import ref
from .c07 import Reading
from .c25 import Base
from .env import BufferReader, SourceReader, StreamBuffer, StreamSource
from .hist import bfs_many, canon
from .ref import op
from .sched import v_sleep
from stream2py.simply import mk_stream_buffer
from stream2py.utility.locked_sorted_deque import RWLockSortedDeque

M = 5                                      # items of every kind


def no(*a, **k):
    raise TypeError('this object is not meant for that')


class Sealed:
    """Nothing can be done with it, but to name it."""
    __eq__ = __ne__ = __lt__ = __gt__ = __le__ = __ge__ = __bool__ = __len__ = __iter__ = __getitem__ = __contains__ = __call__ = no
    __copy__ = __deepcopy__ = __reduce_ex__ = __int__ = __index__ = __float__ = __enter__ = __exit__ = no
    __hash__ = None


class Same:
    """Equal to everything."""
    __eq__ = lambda self, o: True
    __ne__ = lambda self, o: False
    __hash__ = lambda self: 1


class Odd:
    """Equal to nothing, not even itself."""
    __eq__ = lambda self, o: False
    __ne__ = lambda self, o: True
    __hash__ = lambda self: 1


class Nothing:
    """Equal to None and false."""
    __eq__ = lambda self, o: o is None
    __bool__ = lambda self: False
    __hash__ = lambda self: 1


class Backward:
    """Its own order is the opposite of the order of the keys."""

    def __init__(self, i):
        self.i = i

    __lt__ = lambda self, o: self.i > o.i
    __gt__ = lambda self, o: self.i < o.i


ITEMS = {
    'sealed': lambda: [Sealed() for _ in range(M)],
    'equal to everything': lambda: [Same() for _ in range(M)],
    'equal to nothing': lambda: [Odd() for _ in range(M)],
    'equal to None': lambda: [Nothing() for _ in range(M)],
    'ordered backward': lambda: [Backward(i) for i in range(M)],
    'false': lambda: [[], {}, set(), bytearray(), fractions.Fraction(0)],
    'containers': lambda: [[1], {'a': [2]}, [[]], {1, 2}, [None, None]],
    'exceptions': lambda: [ValueError('a'), StopIteration(), IndexError('b'), TypeError('c'), KeyboardInterrupt()],
    'classes': lambda: [type('C%d' % i, (Exception,), {}) for i in range(M)],
    'functions': lambda: [(lambda: 0), functools.partial(no), type('G', (), {'__call__': no})(), (lambda x: x), ITEMS_GEN()],
}


def ITEMS_GEN():
    return (x for x in (1, 2))


class Order:
    """The least an order needs: < and > between keys."""
    __hash__ = None
    __eq__ = __ne__ = __le__ = __ge__ = __bool__ = __len__ = no

    def __init__(self, v):
        self.v = v

    def __lt__(self, o):
        return NotImplemented if not isinstance(o, Order) else self.v < o.v

    def __gt__(self, o):
        return NotImplemented if not isinstance(o, Order) else self.v > o.v


@functools.total_ordering
class Version:
    """Handwritten: assumes that the other one is of its kind."""

    def __init__(self, *v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Version) and self.v == o.v

    def __lt__(self, o):
        return self.v < o.v


@functools.total_ordering
class Lax(Version):
    """Handwritten: can be compared with anything."""

    def __lt__(self, o):
        return str(self.v) < str(getattr(o, 'v', o))


@functools.total_ordering
class Last(Version):
    """The opposite."""

    def __lt__(self, o):
        return isinstance(o, Last) and self.v < o.v


class Whole(int):
    pass


D = datetime.datetime
# 2 * M + 1 keys in order: those of the items are at the odd places
KEYS = {
    'negative': [-12, -11, -9, -7, -5, -4, -3, -2, -1, 0, 1],
    'around zero': [-3, -2, -1.5, -1, -0.5, 0, 0.5, 1, 1.5, 2, 3],
    'from zero': [-1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9],
    'from false': [-1, False, 0.5, True, 1.5, 2, 3, 4, 5, 6, 7],
    'up to zero': [-10, -9, -8, -7, -6, -5, -4, -3, -2, 0.0, 1],
    'infinite': [float('-inf'), -1e300, -1, -5e-324, 0.0, 5e-324, 1, 1 + 2 ** -52, 1e17, 1e300, float('inf')],
    'huge': [10 ** 20 + i for i in range(2 * M + 1)],
    'text': ['', 'A', 'AA', 'B', 'a', 'aa', 'b', 'é', 'ü', '語', '語語'],
    'empty text': ['', '\0', '\0\0', '\1', ' ', '0', '1', '10', '2', '9', ':'],
    'bytes': [b'', b'\0', b'\0\0', b'\1', b'a', b'a\0', b'aa', b'b', b'\xfe', b'\xff', b'\xff\xff'],
    'tuples': [(), (0,), (0, ''), (0, 'a'), (0, 'a', 1), (0, 'b'), (0, 'c'), (1, ''), (1, 'a'), (2,), (3, 'z')],
    'lists': [[], [0], [0, 0], [0, 1], [1], [1, 0], [2], [2, []], [2, [1]], [3], [4]],
    'dates': [D(2024, 1, 1) + datetime.timedelta(seconds=i * i) for i in range(2 * M + 1)],
    'spans': [datetime.timedelta(i) for i in range(-1, 2 * M)],
    'fractions': [fractions.Fraction(i - 1, 7) for i in range(2 * M + 1)],
    'versions': [Version(i // 3, i) for i in range(2 * M + 1)],
    'lax': [Lax(i // 3, i) for i in range(10, 2 * M + 11)],
    'last': [Last(i // 3, i) for i in range(2 * M + 1)],
    'bare order': [Order(i) for i in range(2 * M + 1)],
    'own numbers': [Whole(i - 1) for i in range(2 * M + 1)],
}
EMPTY_FIRST = {'text': 0, 'bytes': 0, 'tuples': 0, 'lists': 0}     # keys whose falsy first one should belong to an item


def kinds():
    return [('falsy', k) for k in KEYS] + [(i, k) for i in ITEMS for k in ('from zero', 'bare order', 'text')]


def make(kind):
    """-> (items, keys of the items, all keys)"""
    items = ITEMS[kind[0] if kind[0] != 'falsy' else 'false']()
    ks = KEYS[kind[1]]
    if kind[0] == 'falsy' and kind[1] in EMPTY_FIRST:
        return items, ks[0:2 * M:2], [ks[0]] + ks         # the first item has the empty key; nothing below
    return items, ks[1::2], ks


class Opaque(Reading):
    """The histories of Reading, told in numbers (items 1, 3, 5..; the keys between them are even), done with the real things."""

    def __init__(self, kind, readers, menu, maxlen=None, max_items=M):
        self.real, self.itemkeys, allkeys = make(kind)
        self.atkey = dict(zip(range(1, 2 * M, 2), self.itemkeys))
        for n in range(0, 2 * M + 1, 2):
            self.atkey[n] = allkeys[n] if self.itemkeys[0] is not allkeys[0] else ([self.itemkeys[0]] + allkeys[2::2] + allkeys[-1:])[n // 2]
        self.names = {id(x): n for n, x in zip(range(1, 2 * M, 2), self.real)}
        self.items = list(range(1, 2 * M, 2))[:max_items]
        self.between = []
        self.key = lambda n: n
        self.maxlen, self.menu = maxlen, menu
        self.buf = RWLockSortedDeque([], key=self.realkey, maxlen=maxlen)
        self.stop = threading.Event()
        self.info = {'a': 1}
        self.readers = [BufferReader(self.buf, self.info, self.stop, **d) for d in readers]
        self.defaults = [dict(dict(read_size=1, peek=False, ignore_no_item_found=False, strict_n=False), **d) for d in readers]
        self.cursors = [None] * len(readers)
        self.content = []
        self.fed = 0

    def realkey(self, x):
        return self.atkey[self.names[id(x)]]

    def name(self, v):
        if v is None or isinstance(v, list) and id(v) not in self.names:
            return None if v is None else [self.name(x) for x in v]
        return self.names.get(id(v), 'something else: a %s' % type(v).__name__)

    def perform(self, i, o):
        r = self.readers[i]
        name, args, kw = o
        kw = {ref.RENAME.get(k, k): v for k, v in kw}
        try:
            if name == 'set':
                r.last_item = self.real[args[0]]
                return ref.NONE
            if name == 'del':
                del r.last_item
                return ref.NONE
            if name == 'next':
                v = next(r)
            elif name == 'iter':
                v = next(iter(r))
            elif name == 'range':
                v = r.range(self.atkey[args[0]], self.atkey[args[1]], *args[2:], **kw)
            else:
                v = getattr(r, {'nextm': 'next'}.get(name, name))(**kw)
        except Exception as e:
            return ('raise', type(e).__name__)
        return ref.NONE if v is None else ('ok', self.name(v))

    def possible(self, i, o):
        if o[0] == 'set' and o[1][0] >= len(self.items):
            return False
        return super().possible(i, o)

    def apply(self, opn):
        if opn[0] != 'append':
            return super().apply(opn)
        x = self.items[self.fed]
        self.fed += 1
        with self.buf.writer_lock() as w:
            w.append(self.real[x // 2])
        self.content.append(x)
        if self.maxlen is not None:
            del self.content[:-self.maxlen]
        return []

    def check(self):
        out = []
        for i, r in enumerate(self.readers):
            c = self.cursors[i]
            got = (self.name(r.last_item), None if r.last_key is None else [n for n in self.atkey if self.atkey[n] is r.last_key])
            if c is None:
                if got != (None, None):
                    out.append('reader %d: cursor %r, expected none' % (i, got))
            elif got[0] != c or c not in (got[1] or ()):
                out.append('reader %d: cursor %r, expected %r' % (i, got, c))
        with self.buf.reader_lock() as b:
            have = [self.name(b[i]) for i in range(len(b))]
        if have != self.content:
            out.append('the buffer holds %r, expected %r' % (have, self.content))
        return out

    def canon(self):
        f = [(self.name(r.last_item), None if r.last_key is None else [n for n in self.atkey if self.atkey[n] is r.last_key],
              canon({k: v for k, v in vars(r).items() if 'last' not in k and 'buffer' not in k})) for r in self.readers]
        with self.buf.reader_lock() as b:
            have = [self.name(b[i]) for i in range(len(b))]
        return canon(f, have, self.cursors, self.content, self.fed)


def menu():
    out = [op('read'), op('read', n=2), op('read', n=3, strict=True), op('read', peek=True), op('read', n=2, peek=True), op('read', ignore=True),
           op('next'), op('iter'), op('nextm'), op('nextm', n=2), op('read', blocking=True), op('read', n=2, blocking=True),
           op('tail', ignore=True), op('tail', only_new=True), op('tail', only_new=True, ignore=True), op('head'), op('head', peek=True),
           op('del'), op('set', 0), op('set', 2)]
    for a, b in ((1, 5), (0, 10), (2, 4), (3, 3), (5, 1), (0, 1), (7, 10)):
        for kw in ({}, dict(only_new=True), dict(start_le=True, stop_ge=True), dict(only_new=True, ignore=True, stop_ge=True), dict(peek=True, start_le=True),
                   dict(step=2)):
            out.append(op('range', a, b, *([2] if 'step' in kw else []), **{k: v for k, v in kw.items() if k != 'step'}))
    return out


class Stream(Base):
    """The whole way, from a source's read to a reader, for every way to make a stream and every way to take items."""

    def __init__(self, kind, how, take, maxlen, auto):
        self.kind, self.how, self.take, self.maxlen, self.auto = kind, how, take, maxlen, auto

    def go(self, s):
        items, itemkeys, _ = make(self.kind)
        names = {id(x): i for i, x in enumerate(items)}
        key = lambda x: itemkeys[names[id(x)]]
        given = []

        def read(self=None):
            if len(given) < M:
                given.append(len(given))
                return items[given[-1]]

        cls = StreamSource if self.how == 'opened' else SourceReader
        src = type('Src', (cls,), dict(open=lambda self: None, close=lambda self: None, read=read, key=lambda self, x: key(x)))()
        opts = dict(maxlen=self.maxlen, auto_drop=self.auto)
        sb = None
        if self.how == 'opened':
            r = src.configure_buffer(**opts).open_reader()
            stop = r.close
        elif self.how == 'simply':
            cm = mk_stream_buffer(read_stream=lambda i: read(), key=key, enumerate_data=False, **opts)
            sb = cm.__enter__()
            r = sb.mk_reader()
            stop = lambda: cm.__exit__(None, None, None)
        else:
            sb = StreamBuffer(src, **opts)
            sb.start()
            r = sb.mk_reader()
            stop = sb.stop
        v_sleep(3)
        got = []
        want = list(range(M))
        if self.maxlen is not None:
            want = want[-self.maxlen:] if self.auto else want[:self.maxlen]
        if self.take in ('for', 'buffer for', 'blocking'):
            stop()
            v_sleep(2)
        if self.take == 'for':
            got = [x for x in r]
        elif self.take == 'buffer for':
            got = [x for x in sb]
        elif self.take == 'buffer next':
            got = [next(sb) for _ in want]
        elif self.take == 'next':
            got = [next(r) for _ in want]
        elif self.take == 'read':
            got = [r.read() for _ in want]
        elif self.take == 'blocking':
            while True:
                x = r.read(blocking=True)
                if x is None:
                    break
                got.append(x)
        elif self.take == 'all':
            got = r.read(n=M)
        elif self.take == 'range':
            got = r.range(itemkeys[0], itemkeys[-1])
        elif self.take == 'tail':
            got, want = [r.tail()], want[-1:]
        elif self.take == 'head':
            got, want = [r.head()], want[:1]
        elif self.take == 'drop':
            while want:
                sb.drop(1)
                want = want[1:]
                v_sleep(2)
                if len(given) < M or want and want[-1] < M - 1:
                    self.expect(False, 'stuck after a drop')
                    break
                x = [names.get(id(x)) for x in r.range(itemkeys[0], itemkeys[-1], peek=True)]
                self.expect(x == want, 'after a drop %r, expected %r' % (x, want))
        got = [names.get(id(x), '?') for x in got]
        if self.take != 'drop':
            self.expect(got == want, 'got %r, expected %r' % (got, want))
        if self.take not in ('for', 'buffer for', 'blocking'):
            stop()
        v_sleep(2)
        self.outcome = tuple(got)


class Direct(Base):
    """A source reader iterated without a stream."""

    def __init__(self, kind):
        self.kind = kind

    def go(self, s):
        items, itemkeys, _ = make(self.kind)
        names = {id(x): i for i, x in enumerate(items)}
        left = [None]
        for x in items:
            left += [x, None]
        src = type('Src', (SourceReader,), dict(open=lambda self: None, close=lambda self: None, key=lambda self, x: 0, read=lambda self: left.pop(0)))()
        with src:
            got = [names.get(id(x), '?') for _, x in zip(items, src)]
        self.expect(got == list(range(M)), 'iterated %r' % got)


def run(rep):
    m = menu()
    hs = [('%s items, %s keys' % k, lambda k=k: Opaque(k, [{}], m, 3, rep.q(4, 5)), rep.q(6, 30)) for k in kinds()]
    hs += [('%s items, %s keys, reading two at a time' % k, lambda k=k: Opaque(k, [dict(read_size=2, ignore_no_item_found=True), {}], m[::3], 3, 4),
            rep.q(4, 12)) for k in kinds()]
    bfs_many(rep, hs)
    takes = ('for', 'buffer for', 'buffer next', 'next', 'read', 'blocking', 'all', 'range', 'tail', 'head')
    hs = [('%s items, %s keys, %s, %s, maxlen %r, auto_drop %r' % (k + (how, take, n, a)), lambda k=k, how=how, take=take, n=n, a=a: Stream(k, how, take, n, a))
          for k in kinds() for how in ('plain', 'simply', 'opened') for take in takes if how != 'opened' or 'buffer' not in take
          for n, a in ((None, True), (3, True), (3, False))]
    hs += [('%s items, %s keys, %s, dropping' % (k + (how,)), lambda k=k, how=how: Stream(k, how, 'drop', None, False))
           for k in kinds() for how in ('plain', 'simply')]
    rep.explore_many('streams', hs, bound=0, gran='sync')
    rep.explore_many('source readers', [('%s items' % i, lambda i=i: Direct((i, 'from zero'))) for i in ITEMS], bound=0, gran='sync')
