"""C28: a stream holds on to its window and the cursors of its readers, and to nothing else."""
import gc
import itertools
import threading
import weakref

from .c25 import Base
from .env import StreamFault, BufferReader, SourceReader, StreamBuffer, StreamSource
from .hist import bfs_many, canon
from .sched import v_sleep
from stream2py.simply import mk_stream_buffer
from stream2py.utility.locked_sorted_deque import RWLockSortedDeque


class Item:
    def __init__(self, i):
        self.i = i


class Key:
    def __init__(self, i):
        self.i = i

    __lt__ = lambda self, o: self.i < o.i
    __gt__ = lambda self, o: self.i > o.i
    __eq__ = lambda self, o: isinstance(o, Key) and self.i == o.i
    __hash__ = lambda self: hash(self.i)
    __repr__ = lambda self: 'Key(%r)' % (self.i,)


class Watch:
    """Which of the things made are still there."""

    def __init__(self):
        self.refs = {}

    def add(self, name, x):
        self.refs.setdefault(name, []).append(weakref.ref(x))
        return x

    def alive(self):
        out = {n: sum(r() is not None for r in rs) for n, rs in self.refs.items()}
        return {n: k for n, k in out.items() if k}

    def problems(self, allowed, keys=None):
        """allowed: names that may be alive; keys: how many key objects."""
        def bad():
            a = self.alive()
            out = ['%s %s is still held' % n for n in a if n not in allowed and n[0] != 'key']
            k = sum(v for n, v in a.items() if n[0] == 'key')
            if keys is not None and k > keys:
                out.append('%d keys are held, the window and the cursors have %d' % (k, keys))
            return out
        if bad():
            gc.collect()
        return bad()


class Window:
    """Histories of appends, drops and reader calls; what was handed out is let go at once."""

    def __init__(self, maxlen, n, menu):
        self.w = Watch()
        self.maxlen, self.n, self.menu = maxlen, n, menu
        self.buf = RWLockSortedDeque([], key=self.key, maxlen=maxlen)
        self.stop = threading.Event()
        self.readers = {}
        self.cursors = {}
        self.content = []
        self.fed = 0
        self.made = 0

    def key(self, x):
        return self.w.add(('key', x.i), Key(x.i))

    def ops(self):
        out = []
        if self.fed < self.n:
            out.append(('append',))
        if self.content:
            out.append(('drop',))
        if len(self.readers) < 2 and self.made < 3:
            out.append(('make',))
        for i in sorted(self.readers):
            out.append(('forget', i))
            for o in self.menu:
                if o[0] != 'for' or [x for x in self.content if self.cursors[i] is None or x > self.cursors[i]]:
                    out.append(('on', i, o))
        return out

    def apply(self, o):
        if o[0] == 'append':
            self.fed += 1
            with self.buf.writer_lock() as w:
                w.append(self.w.add(('item', self.fed), Item(self.fed)))
            self.content.append(self.fed)
            if self.maxlen is not None:
                del self.content[:-self.maxlen]
        elif o[0] == 'drop':
            with self.buf.writer_lock() as w:
                w.drop(1)
            del self.content[0]
        elif o[0] == 'make':
            self.made += 1
            self.readers[self.made] = self.w.add(('reader', self.made), BufferReader(self.buf, {}, self.stop))
            self.cursors[self.made] = None
        elif o[0] == 'forget':
            del self.readers[o[1]], self.cursors[o[1]]
        else:
            self.call(*o[1:])
            c = self.readers[o[1]].last_item
            self.cursors[o[1]] = None if c is None else c.i
        return []

    def call(self, i, o):
        r = self.readers[i]
        try:
            if o[0] == 'range':
                r.range(Key(o[1]), Key(o[2]), **dict(o[3]))
            elif o[0] == 'for':
                next(iter(r))
            elif o[0] == 'next':
                next(r)
            elif o[0] == 'del':
                del r.last_item
            else:
                getattr(r, o[0])(**dict(o[1]))
        except (ValueError, IndexError, StopIteration):
            pass

    def check(self):
        held = set(self.content) | {c for c in self.cursors.values() if c is not None}
        return self.w.problems({('item', i) for i in held} | {('reader', i) for i in self.readers},
                               len(self.content) + sum(c is not None for c in self.cursors.values()))

    def canon(self):
        out = []
        for i in self.readers:
            d = {k: v for k, v in vars(self.readers[i]).items() if k not in ('_buffer', '_last_item', '_last_key')}
            out.append((i, canon(d)))
        return canon(out, self.content, sorted(self.cursors.items()), self.fed, self.made)


def menu():
    kw = lambda **k: tuple(sorted(k.items()))
    return [('read', kw()), ('read', kw(n=2)), ('read', kw(n=3, strict_n=True)), ('read', kw(peek=True)), ('read', kw(n=2, peek=True)),
            ('read', kw(ignore_no_item_found=True)), ('next', ()), ('for', ()), ('head', kw()), ('head', kw(peek=True)), ('tail', kw()),
            ('tail', kw(peek=True)), ('tail', kw(only_new_items=True)), ('range', 1, 2, kw()), ('range', 0, 9, kw()), ('range', 0, 9, kw(peek=True)),
            ('range', 2, 9, kw(only_new_items=True)), ('range', 1, 3, kw(start_le=True, stop_ge=True)), ('range', 5, 2, kw()), ('range', 0, 9, kw(step=2)),
            ('del', ())]


class Sessions(Base):
    """A stream through its sessions. ops:
       ('new', r) ('forget', r) a reader; ('read', r) ('all', r) ('peek', r) its calls; ('for', r) a loop left after an item;
       ('sbnext',) ('sbfor',) the same by the stream buffer itself; ('drop',) ; ('restart',) ; ('stop',)"""

    def __init__(self, how, maxlen, auto, ops, n=4, fails=None):
        self.how, self.maxlen, self.auto, self.ops, self.n, self.fails = how, maxlen, auto, ops, n, fails      # fails: 'read', 'key'

    def go(self, s):
        w = self.w = Watch()
        self.session = 0
        self.last = None
        st = self

        def open_(self=None):
            st.session += 1
            st.left = st.n

        def read(self=None):
            if st.left:
                st.left -= 1
                st.last = (st.session, st.n - st.left)
                return w.add(('item', st.last), Item(st.last))
            if st.fails == 'read':
                raise StreamFault
            if st.fails == 'key':
                return w.add(('item', 'bad'), Item((st.session, 99)))

        def key(x):
            if x.i[1] == 99:
                raise StreamFault
            return w.add(('key', x.i), Key(x.i))

        cls = StreamSource if self.how == 'opened' else SourceReader
        src = type('Src', (cls,), dict(open=open_, close=lambda self: None, read=read, key=lambda self, x: key(x), info=property(lambda self: {})))()
        self.readers = {}
        self.windows = {}
        self.dropped = {}
        self.keeper = None
        if self.how == 'opened':
            src.configure_buffer(maxlen=self.maxlen, auto_drop=self.auto)
            sb = None
            self.keeper = src.open_reader()
        elif self.how == 'simply':
            cm = mk_stream_buffer(read_stream=lambda i: read(), open_stream=open_, key=key, enumerate_data=False, maxlen=self.maxlen, auto_drop=self.auto)
            sb = cm.__enter__()
        else:
            sb = StreamBuffer(src, maxlen=self.maxlen, auto_drop=self.auto)
            sb.start()
        self.own = None                    # cursor of the stream buffer's own iteration
        self.sess = {None: self.session} if self.keeper else {}
        v_sleep(4)
        self.settled('at first')
        for o in self.ops:
            self.do(o, sb, src)
            v_sleep(4)
            self.settled('after %r' % (o,))
        if self.how == 'opened':
            for r in list(self.readers.values()) + [self.keeper]:
                r.close()
            r = None
        elif self.how == 'simply':
            cm.__exit__(None, None, None)
        else:
            sb.stop()
        v_sleep(4)
        # everything let go of: nothing is left
        self.readers = self.keeper = sb = src = cm = None
        self.windows = {}
        left = w.problems(set(), 0)
        if left:
            self.problems.append('after everything was let go: %s' % '; '.join(left))
        self.outcome = repr(self.ops)

    def do(self, o, sb, src):
        k = o[0]
        try:
            if k == 'new':
                r = src.open_reader() if sb is None else sb.mk_reader()
                self.w.add(('reader', o[1]), r)
                self.readers[o[1]] = r
                self.sess[o[1]] = self.session
            elif k == 'forget':
                if sb is None:
                    self.readers[o[1]].close()
                del self.readers[o[1]], self.sess[o[1]]
            elif k == 'read':
                self.readers[o[1]].read()
            elif k == 'all':
                self.readers[o[1]].range(Key((0, 0)), Key((9, 9)))
            elif k == 'peek':
                self.readers[o[1]].read(n=3, peek=True)
            elif k == 'for':
                r = self.readers[o[1]]
                if self.more(r.last_item and r.last_item.i, self.sess[o[1]]):       # (else it waits for an item that never comes)
                    for x in r:
                        break
                r = x = None
            elif k == 'sbnext':
                x = next(sb)
                self.own = self.own if x is None else x.i
                x = None
            elif k == 'sbfor':
                if self.more(None, self.session):
                    for x in sb:
                        break
                x = None
            elif k == 'drop':
                sb.drop(2)
                self.dropped[self.session] = self.dropped.get(self.session, 0) + 2
            elif k == 'restart':
                sb.start()
                self.own = None
            elif k == 'stop':
                sb.stop()
        except (ValueError, IndexError, StopIteration):
            pass

    def window(self, k):
        read = [(k, i) for i in range(1, 1 + (self.n if k < self.session else self.n - self.left))]
        if self.auto:
            return read if self.maxlen is None else read[-self.maxlen:]
        return read[self.dropped.get(k, 0):]

    def more(self, cursor, session):
        win = self.window(session)
        return win and (cursor is None or cursor < win[-1])

    def settled(self, when):
        allowed = {('reader', r) for r in self.readers}
        keys = 0
        if not self.fails:                  # (a read in progress has its last one at hand)
            allowed.add(('item', self.last))
            keys = 1
        for k in {self.session} | set(self.sess.values()):
            win = self.window(k)
            keys += len(win)
            allowed |= {('item', x) for x in win}
        for r in self.readers.values():
            if r.last_item is not None:
                allowed.add(('item', r.last_item.i))
                keys += 1
        if self.own is not None:
            allowed.add(('item', self.own))
            keys += 1
        self.problems += ['%s: %s' % (when, p) for p in self.w.problems(allowed, keys)]


def run(rep):
    gc.collect()
    gc.freeze()
    m = menu()
    hs = [('buffer of %r' % n, lambda n=n: Window(n, rep.q(5, 6), m), rep.q(7, 10)) for n in (1, 2, 3, None)]
    bfs_many(rep, hs)
    ops = [('new', 1), ('forget', 1), ('read', 1), ('all', 1), ('peek', 1), ('for', 1), ('new', 2), ('all', 2), ('forget', 2), ('sbnext',), ('sbfor',), ('drop',), ('restart',), ('stop',)]

    def seqs(n, menu, first=()):
        def go(seq, have, ended):
            if seq:
                yield seq
            if len(seq) == n:
                return
            for o in menu:
                r = o[1] if len(o) > 1 else None
                if o[0] == 'new' and (r in have or r == 2 and 1 not in have) or r is not None and o[0] != 'new' and r not in have:
                    continue
                if ended and o[0] in ('stop', 'drop', 'for', 'sbfor'):
                    continue
                yield from go(seq + [o], have | {r} if o[0] == 'new' else have - {r} if o[0] == 'forget' else have,
                              o[0] == 'stop' or ended and o[0] != 'restart')
        return go(list(first), frozenset(), False)

    hs = []
    for how, maxlen, auto in (('plain', 2, True), ('plain', None, False), ('simply', 2, True), ('opened', 2, True), ('plain', 3, False)):
        mine = [o for o in ops if (o[0] != 'drop' or not auto and how != 'opened') and (how != 'opened' or o[0] not in ('drop', 'sbnext', 'sbfor', 'restart', 'stop'))
                and (how != 'simply' or o[0] not in ('restart',))]
        for h in seqs(rep.q(5 if how == 'plain' and maxlen == 2 else 4, 6 if how == 'plain' and maxlen == 2 else 5), mine):
            hs.append(('%s, maxlen %r, auto_drop %r: %s' % (how, maxlen, auto, ' '.join(''.join(map(str, o)) for o in h)),
                       lambda how=how, maxlen=maxlen, auto=auto, h=h: Sessions(how, maxlen, auto, h)))
    for fails, (how, maxlen, auto) in itertools.product(('read', 'key'), (('plain', 2, True), ('plain', 9, False), ('simply', None, False), ('opened', 2, True))):
        mine = [o for o in ops if o[0] not in ('for', 'sbfor', 'stop') and (o[0] != 'drop' or not auto)
                and (how != 'opened' or o[0] not in ('sbnext', 'restart')) and (how != 'simply' or o[0] not in ('restart',))]
        for h in seqs(rep.q(3, 4), mine):
            hs.append(('%s, maxlen %r, auto_drop %r, %s fails: %s' % (how, maxlen, auto, fails, ' '.join(''.join(map(str, o)) for o in h)),
                       lambda how=how, maxlen=maxlen, auto=auto, h=h, fails=fails: Sessions(how, maxlen, auto, h, fails=fails)))
    rep.explore_many('sessions', hs, bound=0, gran='sync')
