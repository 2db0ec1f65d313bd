"""C07: successive reads deliver every retained item exactly once, in key order."""
import itertools
import threading

from . import load, ref, sched
load.load()
from stream2py import BufferReader                                        # noqa: E402
from stream2py.utility.locked_sorted_deque import RWLockSortedDeque       # noqa: E402
from .hist import bfs_many, canon, cases                                              # noqa: E402
from .ref import op                                                       # noqa: E402


def K0(x):
    return x[0]


def PAIR(x):
    return (x[0] // 3, x[0])


def ID(x):
    return x


# name -> (key function given, reference key, items in key order (falsy ones included), probes for keys/cursors between them)
SCHEMES = {
    'first': (K0, K0, [(0, 'a'), (2, 'b'), (3, 'c'), (5, 'd'), (8, 'e')], [(1, '?'), (4, '?'), (9, '?'), (-1, '?')]),
    'identity': (None, ID, [0, 2, 3.5, 5, 8], [1, 4, 9, -1]),
    'text': (None, ID, ['', 'b', 'c', 'e', 'f'], ['a', 'd', 'g']),
    'pairs': (PAIR, PAIR, [(0, 'a'), (2, 'b'), (3, 'c'), (5, 'd'), (8, 'e')], [(1, '?'), (4, '?'), (9, '?')]),
}


class Reading:
    """One buffer, readers made with given defaults, fed with the scheme's items in order."""

    def __init__(self, scheme, readers, menu, maxlen=None, max_items=5):
        self.keyfn, self.key, self.items, self.between = SCHEMES[scheme]
        self.items = self.items[:max_items]
        self.maxlen = maxlen
        self.menu = menu
        self.buf = RWLockSortedDeque([], key=self.keyfn, maxlen=maxlen)
        self.stop = threading.Event()
        self.info = {'a': 1}
        self.readers = [BufferReader(self.buf, self.info, self.stop, **d) for d in readers]
        for r in self.readers:
            r.set_sleep_time_on_iter_none(0.5)
        self.defaults = [dict(dict(read_size=1, peek=False, ignore_no_item_found=False, strict_n=False), **d) for d in readers]
        self.cursors = [None] * len(readers)
        self.content = []
        self.fed = 0

    def ops(self):
        out = []
        if self.fed < len(self.items):
            out.append(('append',))
        if self.content:
            out.append(('drop',))
        for i in range(len(self.readers)):
            out += [('on', i, o) for o in self.menu if self.possible(i, o)]
        return out

    def possible(self, i, o):
        kw = dict(o[2])
        if (kw.get('blocking') or o[0] == 'iter') and not ref.newer(self.content, self.cursors[i], self.key):
            return False               # would wait; not here
        if o[0] == 'iter' and self.defaults[i]['strict_n']:
            return False
        return True

    def expect(self, i, o):
        """-> (allowed results, cursor after)"""
        c, cur, d = self.content, self.cursors[i], self.defaults[i]
        name, args, kw = o
        kw = dict(kw)
        if name == 'set':
            return [ref.NONE], self.pick(args[0])
        if name == 'del':
            return [ref.NONE], None
        if name == 'setbad':
            return [('raise', 'IndexError')], cur
        if name in ('next', 'iter'):
            return ref.read(c, cur, self.key, d['read_size'], d['peek'], True, d['strict_n'])
        if name == 'read':
            def dflt(k, dk):
                return d[dk] if kw.get(k) is None else kw[k]
            blocking = kw.get('blocking')
            return ref.read(c, cur, self.key, dflt('n', 'read_size'), dflt('peek', 'peek'),
                            True if blocking else dflt('ignore', 'ignore_no_item_found'), dflt('strict', 'strict_n'))
        if name == 'nextm':            # the deprecated method: its own defaults
            return ref.read(c, cur, self.key, kw.get('n', 1), kw.get('peek', False), kw.get('ignore', False), kw.get('strict', False))
        if name == 'range':
            if kw.get('ignore') is None:
                kw['ignore'] = d['ignore_no_item_found']
            return ref.range_(c, cur, self.key, *args, **kw)
        return ref.FUNCS[name](c, cur, self.key, *args, **kw)

    def pick(self, j):
        return self.items[j] if j >= 0 else self.between[-j - 1]

    def perform(self, i, o):
        r = self.readers[i]
        name, args, kw = o
        try:
            if name == 'set':
                r.last_item = self.pick(args[0])
                return ref.NONE
            if name == 'setbad':            # an item whose key cannot be computed
                r.last_item = ()
                return ref.NONE
            if name == 'del':
                del r.last_item
                return ref.NONE
            if name == 'next':
                v = next(r)
                return ref.NONE if v is None else ('ok', v)
            if name == 'iter':
                return ('ok', next(iter(r)))
        except Exception as e:
            return ('raise', type(e).__name__)
        if name == 'nextm':
            return ref.call_real(r, ('next', args, kw))
        return ref.call_real(r, o)

    def apply(self, opn):
        out = []
        if opn[0] == 'append':
            x = self.items[self.fed]
            self.fed += 1
            with self.buf.writer_lock() as w:
                w.append(x)
            self.content.append(x)
            if self.maxlen is not None:
                del self.content[:-self.maxlen]
        elif opn[0] == 'drop':
            with self.buf.writer_lock() as w:
                w.drop(1)
            del self.content[0]
        else:
            _, i, o = opn
            allowed, cur = self.expect(i, o)
            before = self.cursors[i]
            got = self.perform(i, o)
            if got not in allowed:
                out.append('reader %d (made with %r): %s with cursor %r on %r gave %r, expected %r'
                           % (i, self.defaults[i], ref.show(o), before, self.content, got, allowed[0]))
            self.cursors[i] = cur
        return out

    def check(self):
        out = []
        for i, r in enumerate(self.readers):
            c = self.cursors[i]
            if r.last_item != c or r.last_key != (None if c is None else self.key(c)):
                out.append('reader %d: cursor (%r, %r), expected %r' % (i, r.last_item, r.last_key, c))
            if r.source_reader_info != {'a': 1} or r.is_stopped:
                out.append('reader %d: info %r stopped %r' % (i, r.source_reader_info, r.is_stopped))
        with self.buf.reader_lock() as b:
            if list(b) != self.content:
                out.append('the buffer holds %r, expected %r' % (list(b), self.content))
        return out

    def canon(self):
        return canon([vars(r) for r in self.readers], self.buf, self.cursors, self.content, self.fed)


def reads():
    out = []
    for n, peek, ig, st in itertools.product((None, 1, 2, 3), (None, False, True), (None, False, True), (None, False, True)):
        kw = {k: v for k, v in dict(n=n, peek=peek, ignore=ig, strict=st).items() if v is not None}
        out.append(op('read', **kw))
    out += [op('read', blocking=True), op('read', n=2, blocking=True), op('read', blocking=True, peek=True)]
    out += [op('nextm'), op('nextm', n=2), op('nextm', n=2, peek=True), op('nextm', ignore=True), op('nextm', n=2, strict=True)]
    out += [op('next'), op('iter'), op('del'), op('set', 1), op('set', -1), op('set', -2)]
    return out


def run(rep):
    menu = reads()
    B = (False, True)
    hs = [('defaults, %s keys' % scheme, lambda s=scheme: Reading(s, [{}], menu, 3, rep.q(4, 5)), rep.q(8, 30)) for scheme in SCHEMES]
    small = [op('read'), op('read', n=2), op('read', n=1, peek=False), op('read', peek=True, ignore=False), op('read', ignore=True, strict=False),
             op('read', n=3, strict=True), op('next'), op('iter'), op('read', strict=False, n=3), op('nextm'), op('nextm', n=2), op('del'), op('set', 1),
             op('read', blocking=True)]
    for size, peek, ig, st in itertools.product((1, 2, 3), B, B, B):
        d = dict(read_size=size, peek=peek, ignore_no_item_found=ig, strict_n=st)
        hs.append(('made with %r' % (sorted(d.items()),), lambda d=d: Reading('first', [d], small, None, 4), rep.q(8, 30)))
    hs.append(('unbounded buffer', lambda: Reading('first', [{}], small, None, 5), rep.q(8, 30)))
    hs.append(('two readers', lambda: Reading('first', [dict(read_size=2), {}], small[:8], 3, 4), rep.q(7, 30)))
    bfs_many(rep, hs)
    long_reads(rep)
    huge(rep)


def long_reads(rep):
    """Buffers of up to 140 items read to the end in chunks of every size, with evictions on the way."""
    items = [(total, maxlen, n, every, step) for total, maxlen in ((40, None), (70, 70), (140, 100), (140, 33))
             for n in rep.q((1, 2, 3, 7, 16, 33, 64, 65, 100), range(1, 101)) for every in (0, 1, 5) for step in (1, 10)]

    def check(case):
        total, maxlen, n, every, step = case
        buf = RWLockSortedDeque([], key=K0, maxlen=maxlen)
        r = BufferReader(buf, {}, threading.Event(), read_size=n, ignore_no_item_found=True)
        content, cur, fed, k = [], None, 0, 0
        while True:
            more = total - fed if not k or not every and len(content) < 40 else min(step, total - fed) if every and k % every == 0 else 0
            if not k and every:
                more = total // 2
            for _ in range(more):
                x = (fed * 3, fed)
                fed += 1
                with buf.writer_lock() as w:
                    w.append(x)
                content.append(x)
                if maxlen is not None:
                    del content[:-maxlen]
            for o, kw in ((op('read', peek=True), dict(n=n, peek=True)), (op('read', n=n + 1, strict=True, ignore=False, peek=True),
                          dict(n=n + 1, strict=True, ignore=False, peek=True)), (op('read'), dict(n=n))):
                allowed, new = ref.read(content, cur, K0, **dict(dict(ignore=True), **kw))
                got = ref.call_real(r, o)
                if got not in allowed:
                    return ['%s after %r of %d items gave %r, expected %r' % (ref.show(o), cur, len(content), got, allowed[0])], k, None
                cur = new
            k += 1
            if got == ref.NONE and fed >= total or k > 400:
                return [], k, k

    cases(rep, 'long reads', items, check)


SIZES = (1, 2, 3, 9, 10, 11, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 255, 256, 257, 500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047,
         2048, 2049, 4095, 4096, 4097, 5000, 5001, 8191, 8192, 8193, 9999, 10000, 10001, 11998, 11999, 12000, 12001, 10 ** 6)
HUGE = 12000
_huge = {}


def huge_buffer(maxlen):
    """12000 items (and a cursor at any of them), built once."""
    if maxlen not in _huge:
        buf = RWLockSortedDeque([], key=K0, maxlen=maxlen)
        n = HUGE if maxlen != HUGE // 2 else HUGE + HUGE // 2
        with buf.writer_lock() as w:
            for i in range(n):
                w.append((2 * i, i))
        _huge.clear()
        _huge[maxlen] = buf, [(2 * i, i) for i in range(n)][-maxlen if maxlen else 0:]
    return _huge[maxlen]


def huge(rep):
    """A buffer of 12000 items (or the last 6000 of 18000) read in one call of every size around the usual limits, from cursors all over it."""
    items = [(maxlen, at, n) for maxlen in (None, HUGE, HUGE // 2) for at in (None, -1, 0, 1, 99, 998, 5000, 5999, 6001, 9998, 9999, 10000, 11898, 11997, 11998, 11999) for n in SIZES]

    def check(case):
        maxlen, at, n = case
        buf, content = huge_buffer(maxlen)
        cur = None if at is None else (2 * (at - HUGE) + 2 * len(content) + content[0][0], '?')
        rest = [x for x in content if cur is None or x[0] > cur[0]]
        k = 0
        for kw in ({}, {'peek': True}, {'strict': True}, {'ignore': True}, {'default': True}):
            r = BufferReader(buf, {}, threading.Event(), **({'read_size': n} if 'default' in kw else {}))
            if cur is not None:
                r.last_item = cur
            got = ref.call_real(r, op('read', **({} if 'default' in kw else dict({'n': n}, **kw))))
            want = (ref.NONE if 'ignore' in kw else ref.VE) if not rest or 'strict' in kw and 1 < n > len(rest) else ('ok', rest[:n] if n > 1 else rest[0])
            last = cur if want[0] != 'ok' or 'peek' in kw else rest[:n][-1]
            k += 1
            brief = lambda g: '%s of %d items from %r' % (g[0], len(g[1]), g[1][:1]) if g[0] == 'ok' and n > 1 else repr(g)
            if got != want:
                return ['read of %d %r after %r gave %s, expected %s' % (n, kw, cur, brief(got), brief(want))], k, None
            if r.last_item != last:
                return ['read of %d %r after %r left the cursor at %r, expected %r' % (n, kw, cur, r.last_item, last)], k, None
        return [], k, (maxlen, at, n > len(rest))

    cases(rep, 'huge buffer', items, check)
