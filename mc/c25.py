"""C25: options take effect as given, each for exactly the object it was given to."""
import itertools

from . import ref
from .env import BufferReader, ScriptSource, StreamBuffer, StreamScript, StreamSource
from .sched import v_sleep
from stream2py.simply import mk_stream_buffer

EPS = 1e-6
N = 5                                # items of every session


class Object:
    """One stream made in one of the ways a stream can be made."""
    cls = StreamScript

    def __init__(self, s, how, opts, n=N):
        self.s, self.how, self.opts, self.n = s, how, dict(opts), n
        self.src = src = (StreamScript if how in ('opened', 'configured') else ScriptSource)([list(range(1, n + 1))], s, point_in_read=False)
        self.problems = []
        self.cm = None
        self.r = None
        if how == 'plain':
            self.sb = StreamBuffer(src, **self.opts)
        elif how == 'method':
            o = dict(self.opts)
            self.sb = src.stream_buffer(o.pop('maxlen'), **o)
        elif how == 'configured':
            self.configure(self.opts)
        self.maxlen = self.opts.get('maxlen', None if how == 'configured' else 100)
        w = self.opts.get('sleep_time_on_read_none_s')
        self.wait = 0.3 if w is None else w
        self.auto = self.opts.get('auto_drop', True)

    def configure(self, opts):
        r = self.src.configure_buffer(**opts)
        if r is not self.src:
            self.problems.append('configuring gives %r' % (r,))

    def start(self):
        src = self.src
        if self.how in ('plain', 'method'):
            self.sb.start()
        elif self.how == 'simply':
            o = dict(self.opts)
            if 'sleep_time_on_read_none_s' in o:
                o['sleep_time_on_read_none_seconds'] = o.pop('sleep_time_on_read_none_s')
            self.cm = mk_stream_buffer(read_stream=lambda i: src.read(), open_stream=src.open, close_stream=lambda i: src.close(),
                                       key=src.key, enumerate_data=False, **o)
            self.sb = self.cm.__enter__()
        self.r = self.reader()

    def reader(self, **kw):
        return self.src.open_reader(**kw) if self.how in ('opened', 'configured') else self.sb.mk_reader(**kw)

    def stop(self):
        if self.how in ('opened', 'configured'):
            self.r.close()
        elif self.how == 'simply':
            self.cm.__exit__(None, None, None)
        else:
            self.sb.stop()

    def drop(self, n):
        if self.how in ('opened', 'configured'):      # no public way to it
            sb = [x for x in vars(self.src).values() if isinstance(x, StreamBuffer)]
            if len(sb) != 1:
                raise RuntimeError('no stream buffer found')
            return sb[0].drop(n)
        self.sb.drop(n)

    def content(self):
        return self.r.range(-1, 10 ** 6, peek=True)

    def settled(self, dropped=0):
        """Everything that had to happen has happened."""
        k = self.src.session
        src = self.src
        want = [(i, k) for i in range(1, self.n + 1)]
        if not self.auto and self.maxlen is not None:
            want = want[:self.maxlen + dropped]
        got = [x for x in src.returned if x[1] == k]
        if got != want:
            self.problems.append('read %s' % short(got, want))
        if self.auto:
            want = want if self.maxlen is None else want[-self.maxlen:]
        else:
            want = want[dropped:]
        c = self.content()
        if c != want:
            self.problems.append('retained %s' % short(c, want))
        if len(got) == self.n and not (not self.auto and self.maxlen is not None and len(want) >= self.maxlen):
            t = [e[-2] for e in src.log if e[0] == 'none-end' and e[1] == k]
            gaps = {round(b - a, 6) for a, b in zip(t, t[1:])}
            if not t or gaps - {round(self.wait, 6)}:
                self.problems.append('polling every %r s, expected %r' % (sorted(gaps), self.wait))
        return c

    def session(self):
        """From right after a start to the end of the session."""
        v_sleep(2.6)
        self.settled()
        if self.auto:
            try:
                self.drop(1)
                self.problems.append('a drop was accepted')
            except RuntimeError:
                pass
            self.settled()
        else:
            if self.how in ('opened', 'configured') and not any(isinstance(x, StreamBuffer) for x in vars(self.src).values()):
                return
            n = min(2, self.n if self.maxlen is None else self.maxlen)
            self.drop(n)
            v_sleep(2.6)
            self.settled(n)


def short(a, b):
    f = lambda x: '%d items from %r to %r' % (len(x), x[0], x[-1]) if len(x) > 8 else repr(x)
    return '%s, expected %s' % (f(a), f(b))


class Base:
    outcome = None

    def main(self, s):
        self.problems = []
        s.region(False)
        self.s = s
        self.go(s)

    def check(self, s):
        return self.problems

    def stuck(self, s):
        return ['%s: %s' % (s.status, s.status_info)]

    def expect(self, ok, text):
        if not ok:
            self.problems.append(text)


class Streams(Base):
    """Two streams with their own options. `order`: when the second is made relative to the first."""

    def __init__(self, a, b, order, n=N):
        self.a, self.b, self.order, self.n = a, b, order, n

    def go(self, s):
        a = Object(s, *self.a, n=self.n)
        if self.order == 'both made first':
            b = Object(s, *self.b, n=self.n)
            a.start()
            b.start()
        elif self.order == 'second made while the first runs':
            a.start()
            b = Object(s, *self.b, n=self.n)
            b.start()
        else:
            b = Object(s, *self.b, n=self.n)
            b.start()
            a.start()
        a.session()
        b.session()
        # again
        a.stop()
        if a.how != 'simply':
            a.start()
            a.session()
            a.stop()
        b.stop()
        for n, o in (('first', a), ('second', b)):
            self.problems += ['%s (%s %r): %s' % (n, o.how, o.opts, p) for p in o.problems]


class Late(Base):
    """Configuring a stream source again: before its buffer exists the last one counts, then it is refused and changes nothing."""

    def __init__(self, first, second, when):
        self.first, self.second, self.when = first, second, when

    def go(self, s):
        o = Object(s, 'opened' if self.first is None else 'configured', self.first or {})
        if self.when == 'before':
            o.configure(self.second)
            o = self.as_made(o)
        o.start()
        if self.when in ('running', 'running, twice'):
            self.refused(o)
        if self.when == 'running, twice':
            self.refused(o)
        o.session()
        o.stop()
        if self.when == 'closed':
            self.refused(o)
        o.start()
        o.session()
        o.stop()
        self.problems += o.problems

    def as_made(self, o):
        o.how, o.opts = 'configured', self.second
        o.maxlen = self.second.get('maxlen')
        w = self.second.get('sleep_time_on_read_none_s')
        o.wait = 0.3 if w is None else w
        o.auto = self.second.get('auto_drop', True)
        return o

    def refused(self, o):
        try:
            o.src.configure_buffer(**self.second)
            self.problems.append('configuring was accepted although the buffer exists (%s)' % self.when)
        except ValueError:
            pass


class Readers(Base):
    """Two readers of one stream and one of another, each made with its own defaults."""

    def __init__(self, how, opts):
        self.how, self.opts = how, opts

    def go(self, s):
        a, b = Object(s, self.how, {'maxlen': 10}), Object(s, self.how, {'maxlen': 10})
        a.start()
        b.start()
        rs = []
        for o, d in zip((a, b, a), self.opts):
            rs.append((o.reader(**d), d))
        v_sleep(1)
        rs[1:2] = [] if len(self.opts) < 2 else rs[1:2]
        cur = [None] * len(rs)
        for turn in range(4):
            for i, (r, d) in enumerate(rs):
                c = (b if i == 1 else a).content()
                x = dict(dict(read_size=1, peek=False, strict_n=False, ignore_no_item_found=False), **d)
                for name in ('read', 'next') if turn % 2 else ('next', 'read'):
                    allowed, cur[i] = ref.read(c, cur[i], lambda x: x[0], x['read_size'], x['peek'],
                                               True if name == 'next' else x['ignore_no_item_found'], x['strict_n'])
                    try:
                        v = r.read() if name == 'read' else next(r)
                        got = ref.NONE if v is None else ('ok', v)
                    except Exception as e:
                        got = ('raise', type(e).__name__)
                    self.expect(got in allowed, 'reader %d of %r: %s gave %r, expected %r' % (i, self.opts, name, got, allowed))
        for r, d in rs:
            if self.how in ('opened', 'configured'):
                r.close()
        a.stop()
        b.stop()
        self.problems += a.problems + b.problems


class ReaderA(BufferReader):
    pass


class ReaderB(BufferReader):
    def read(self, *a, **kw):
        return super().read(*a, **kw)


class Classes(Base):
    """The class of the readers is what the source says; other sources are not affected."""

    def __init__(self, kinds):
        self.kinds = kinds

    def go(self, s):
        made = []
        for kind in self.kinds:
            base, where, cls = kind
            C = {'reader': ScriptSource, 'stream': StreamScript}[base]
            if where == 'class':
                C = type('Sub', (C,), {'buffer_reader_class': cls})
            src = C([[1, 2, 3]], s, point_in_read=False)
            if where == 'instance':
                src.buffer_reader_class = cls
            elif where == 'given':
                StreamSource.__init__(src, reader_cls=cls)
            made.append((src, None if base == 'stream' else StreamBuffer(src), cls or BufferReader))
        for again in (0, 1):
            rs = []
            for src, sb, cls in made:
                if sb:
                    sb.start()
                rs.append(sb.mk_reader() if sb else src.open_reader())
                if sb:
                    rs.append(sb.mk_reader(read_size=2))
                else:
                    rs.append(src.open_reader(read_size=2))
            v_sleep(1)
            for (src, sb, cls), r, q in zip(made, rs[::2], rs[1::2]):
                for x in (r, q):
                    self.expect(type(x) is cls, '%r: a reader of class %s, expected %s' % (self.kinds, type(x).__name__, cls.__name__))
                self.expect((r.read(), q.read()) == ((1, again + 1), [(1, again + 1), (2, again + 1)]), 'wrong data')
                if sb:
                    sb.stop()
                else:
                    r.close()
                    q.close()


def menus(how):
    if how == 'opened':
        return [{}]
    out = []
    for m, w, a in itertools.product(('-', None, 1, 3), ('-', None, 0.05, 1.25), ('-', True, False)):
        if how == 'method' and m == '-':
            continue
        out.append({k: v for k, v in (('maxlen', m), ('sleep_time_on_read_none_s', w), ('auto_drop', a)) if v != '-'})
    return out


def run(rep):
    ways = ('plain', 'method', 'configured', 'simply')
    others = [('plain', {}), ('opened', {}), ('configured', dict(maxlen=2, sleep_time_on_read_none_s=0.5, auto_drop=False)),
              ('method', dict(maxlen=2, auto_drop=False)), ('simply', dict(maxlen=4, sleep_time_on_read_none_s=0.7))]
    orders = ('both made first', 'second made while the first runs', 'second runs first')
    hs = []
    for how in ways:
        for o in menus(how):
            for b in others if rep.thorough else others[:3]:
                for order in orders:
                    hs.append(('%s %r; %s %r; %s' % (how, o, b[0], b[1], order),
                               lambda how=how, o=o, b=b, order=order: Streams((how, o), b, order)))
    rep.explore_many('two streams', hs, bound=0, gran='sync')
    # long: the defaults
    hs = [('%s %r, %d items' % (how, o, n), lambda how=how, o=o, n=n: Streams((how, o), ('plain', {'maxlen': 7}), orders[0], n=n))
          for how, o in (('plain', {}), ('opened', {}), ('configured', {}), ('simply', {}), ('plain', {'maxlen': 150}), ('configured', {'maxlen': 150}),
                         ('simply', {'maxlen': 150}), ('method', {'maxlen': 150}), ('simply', {'maxlen': None}), ('plain', {'auto_drop': False}))
          for n in (99, 100, 101, 220)]
    hs += [('%s %r, %d items' % (how, o, n), lambda how=how, o=o, n=n: Streams((how, o), ('plain', {'maxlen': 7}), orders[0], n=n))
           for how, o in [(h, {'maxlen': m, 'auto_drop': a}) for h in ('plain', 'configured', 'simply', 'method') for m in (None, 300, 10005) for a in (True, False)]
           for n in (10010,)]
    rep.explore_many('defaults', hs, bound=0, gran='sync', max_lines=10_000_000, max_steps=2_000_000)
    cs = menus('configured')
    some = cs[::7]
    hs = [('%r, %s %r' % (f, w, o), lambda f=f, o=o, w=w: Late(f, o, w)) for f in [None] + (cs if rep.thorough else some) for o in (cs if rep.thorough else some)
          for w in ('before', 'running', 'running, twice', 'closed')]
    rep.explore_many('configuring again', hs, bound=0, gran='sync')
    hs = []
    for how in ('plain', 'configured', 'simply'):
        sizes, peeks = (('-', 1, 2, 3), ('-', True) if how != 'configured' else ('-',))
        ds = [{k: v for k, v in (('read_size', n), ('peek', p), ('strict_n', st), ('ignore_no_item_found', ig)) if v != '-'}
              for n in sizes for p in peeks for st in ('-', True) for ig in ('-', True)]
        for d in ds:
            for e in ds if rep.thorough else ds[:1] + ds[-1:] + ds[9:10]:
                for f in ({}, dict(read_size=2, ignore_no_item_found=True)):
                    hs.append(('%s, %r, %r, %r' % (how, d, e, f), lambda how=how, d=d, e=e, f=f: Readers(how, (d, f, e))))
    rep.explore_many('readers', hs, bound=0, gran='sync')
    kinds = [('reader', None, None), ('stream', None, None), ('reader', 'class', ReaderA), ('reader', 'instance', ReaderB), ('stream', 'class', ReaderA),
             ('stream', 'given', ReaderB), ('stream', 'given', ReaderA), ('reader', 'class', ReaderB),
             ('stream', 'instance', ReaderB)]
    hs = [(' | '.join('%s %s %s' % (b, w, c and c.__name__) for b, w, c in ks), lambda ks=ks: Classes(ks))
          for n in (1, 2, rep.q(2, 3)) for ks in itertools.permutations(kinds, n)]
    rep.explore_many('reader classes', hs, bound=0, gran='sync')
