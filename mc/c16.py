"""C16: a stream source is open exactly while it has open readers, and can be reopened."""
import itertools

from .c13 import Sessions
from .env import BufferReader, StreamScript, StreamBuffer, ScriptSource
from .life import Life
from .sched import v_sleep


class ReaderFault(Exception):
    pass


class Fragile(BufferReader):
    """A reader that cannot be made, or not be opened, on demand."""
    fails = None

    def __init__(self, **kw):
        if Fragile.fails == 'make':
            raise ReaderFault
        super().__init__(**kw)

    def open(self):
        if Fragile.fails == 'open':
            raise ReaderFault
        return super().open()


class Shared(Life):
    """('noreader', how): a reader that cannot be made or opened
    ops: ('open', r) ('close', r) ('see', r) ('sleep', dt) ('use', r, *ops): with block, ('fail', r): with block whose body raises
    ('late', r): waits for an item. One thread: exact expectations after every op."""

    def __init__(self, sessions, threads, configure=None, setup=(), bystander=None, **kw):
        super().__init__(sessions, threads, **kw)
        self.configure = configure
        self.problems = []
        self.setup = setup
        self.bystander = bystander        # another source of the same class: how many readers of it are open meanwhile

    def main(self, s):
        self.s = s
        self.sb = None
        src = self.src = StreamScript(self.sessions, s, **self.src_kw)
        src.buffer_reader_class = Fragile
        if self.configure:
            src.configure_buffer(**self.configure)
        s.region(False)
        if self.bystander is not None:
            other = StreamScript([[1, 2]], s, point_in_read=False)
            theirs = [other.open_reader() for _ in range(self.bystander)]
            v_sleep(0.5)
        for o in self.setup:
            self.call(0, o)
        ths = [s.spawn(lambda i=i: self.perform(i), 'user%d' % i) for i in range(1, len(self.threads))]
        s.region(True)
        self.perform(0)
        s.join(*ths)
        s.region(False)
        for r in sorted(self.readers):
            self.call(0, ('close', r))
        v_sleep(30)
        if self.bystander is not None:
            n = len(src.log)
            want = ['open'] if theirs else []
            for r in theirs + [None]:
                marks = [e[0] for e in other.log if e[0] in ('open', 'closed')]
                if marks != want:
                    self.problems.append('the other source with %d open readers: %r, expected %r' % (len(theirs) if r else 0, marks, want))
                elif r is not None and (r.is_stopped or r.range(0, 9, peek=True) != [(1, 1), (2, 1)]):
                    self.problems.append('a reader of the other source: stopped %r, sees %r' % (r.is_stopped, r.range(0, 9, peek=True)))
                if r is not None:
                    r.close()
                    v_sleep(3)
                    if r is theirs[-1]:
                        want = ['open', 'closed']
            if len(src.log) != n:
                self.problems.append('closing the readers of another source: %r' % (src.log[n:],))

    def do(self, o):
        k, a = o[0], o[1:]
        if k == 'open':
            r = self.src.open_reader()
            self.readers[a[0]] = r
            return r.source_reader_info.get('session')
        if k == 'noreader':
            Fragile.fails = a[0]
            try:
                self.src.open_reader()
            finally:
                Fragile.fails = None
            return
        if k == 'close':
            if a[0] in self.readers:          # its opening may have failed
                self.readers[a[0]].close()
            return
        if k == 'see':
            r = self.readers[a[0]]
            return (r.is_stopped, r.range(-1, 10 ** 6, peek=True))
        if k == 'late':
            r = self.readers[a[0]]
            return r.read(blocking=True)
        if k in ('use', 'fail'):
            c = self.begin(0, ('open', a[0]))
            try:
                cm = self.src.open_reader()
            except Exception as e:
                self.finish_call(c, None, e)
                raise
            self.readers[a[0]] = cm
            self.finish_call(c, cm.source_reader_info.get('session'))
            try:
                with cm as r:
                    if r is not cm:
                        self.problems.append('entering the reader gives %r' % (r,))
                    for x in a[1:]:
                        self.call(0, x)
                    c = self.begin(0, ('close', a[0]))
                    if k == 'fail':
                        raise KeyError('body')
            except KeyError:
                if k != 'fail':
                    raise
            finally:
                self.finish_call(c, None)
            return
        return super().do(o)

    # ------------------------------------------------------------------ oracle
    def check(self, s):
        out = list(self.problems) + self.discipline(grace=False)
        log = self.src.log
        self.outcome = [repr(c) for c in self.calls] + [e[0] for e in log if e[0] in ('open', 'close')]
        # intervals in which a reader is certainly open: from the end of 'open' to the begin of its first 'close'
        # possibly open: from the begin of 'open' to the end of its first close
        sure, maybe, sess = [], [], {}
        now_open = {}
        for c in self.calls:
            if c.op[0] == 'open':
                if c.end is None:
                    continue
                if c.res[0] == 'raise':
                    if c.res != ('raise', 'StreamFault') or not any(e[0] in ('open-fault', 'info-fault') for e in log[c.at:c.end]):
                        out.append('%r at %s' % (c, c.t0))
                    maybe.append((c.at, c.end))
                    continue
                closes = [x for x in self.calls if x.op == ('close', c.op[1]) and x.at >= c.end]
                first = min([x.at for x in closes] or [len(log)])
                last = min([x.end for x in closes] or [len(log)])
                sure.append((c.end, first, c))
                maybe.append((c.at, last))
                sess[c.op[1]] = c.value
            elif c.op[0] == 'noreader' and c.end is not None:
                maybe.append((c.at, c.end))
                if c.res != ('raise', 'ReaderFault'):
                    out.append('%r at %s' % (c, c.t0))
            elif c.op[0] not in ('use', 'fail') and isinstance(c.res, tuple) and c.res[0] == 'raise':
                out.append('%r at %s' % (c, c.t0))
            elif c.op[0] in ('use', 'fail') and isinstance(c.res, tuple) and c.res[0] == 'raise' and c.res[1] != 'StreamFault':
                out.append('%r at %s' % (c, c.t0))
        # open while a reader is open
        state, state_from, n_open = [], 0, 0
        is_open = False
        spans = []                           # (from, to) log positions while the source is open
        for i, e in enumerate(log):
            if e[0] == 'open':
                a = i
                is_open = True
            elif e[0] == 'close' and is_open:
                spans.append((a, i))
                is_open = False
        if is_open:
            spans.append((a, len(log)))
        for lo, hi, c in sure:
            if self.self_ended(c.value):
                continue
            if not any(a <= lo and hi <= b for a, b in spans):
                out.append('the source is not open all the time the reader of %r is open' % (c,))
        # and closed when none is: at the end of every close which leaves no reader possibly open
        for c in self.calls:
            if c.op[0] in ('close', 'noreader') and c.end is not None:
                if not any(lo <= c.end - 1 < hi and hi > c.end or lo < c.end and hi > c.end for lo, hi in maybe):
                    for a, b in spans:
                        if a < c.end <= b:
                            out.append('%r at %s: the source is still open' % (c, c.t1))
        # what readers see
        for c in self.calls:
            if c.op[0] in ('see', 'late') and c.end is not None and c.res[0] == 'ok':
                k = sess.get(c.op[1])
                good = [x for x in self.src.returned if x[1] == k]
                vals = c.value[1] if c.op[0] == 'see' else [c.value]
                if vals != good[:len(vals)]:
                    out.append('reader %s of session %r sees %r, read from the source %r' % (c.op[1], k, vals, good))
                if c.op[0] == 'see':
                    here = [x for x in sure if x[2].op[1] == c.op[1] and x[0] <= c.at and c.end <= x[1]]
                    if here and c.value[0] and not self.self_ended(k):
                        out.append('an open reader of session %r reports stopped' % k)
                    if here and self.settled(c):
                        good = [e[2] for e in log[:c.at] if e[0] == 'item' and e[1] == k]
                        if vals[:len(good)] != good:
                            out.append('reader %s of session %r sees %r, ingested %r' % (c.op[1], k, vals, good))
        # a reader opened when none was open belongs to a session opened for it
        for c in self.calls:
            if c.op[0] == 'open' and c.end is not None and c.res[0] == 'ok':
                opens = [e[1] for e in log[:c.end] if e[0] == 'open']
                if not opens or c.value != opens[-1]:
                    if not any(e[0] == 'open' and e[1] > c.value for e in log[c.at:c.end]):
                        out.append('%r at %s: the last session opened is %r' % (c, c.t0, opens[-1:]))
                mine = [x for x in sure if x[2] is c][0]
                others = [m for m in maybe if m[0] < c.end and m[1] > c.at and m[0] != c.at]
                if not others and not any(e[0] == 'open' for e in log[c.at:c.end]):
                    out.append('%r at %s did not open the source although no other reader was open' % (c, c.t0))
        return out

    def self_ended(self, k):
        return any(e[0] == 'raise' and e[1] == k for e in self.src.log)

    def settled(self, c):
        """Nothing was returned by the source in the 0.02 s before."""
        return all(e[-2] < c.t0 - 0.02 for e in self.src.log[:c.at] if e[0] == 'item')


def histories(n):
    """All sequences of n operations over up to 3 readers: open the next one, close any opened one (again)."""
    def go(seq, opened):
        if len(seq) == n:
            yield seq
            return
        if opened < 3:
            yield from go(seq + [('open', opened)], opened + 1)
        for r in range(opened):
            yield from go(seq + [('close', r)], opened)
    yield from go([], 0)


def looked(h):
    out = []
    seen = set()
    for o in h:
        out.append(o)
        if o[0] == 'open':
            seen.add(o[1])
        out.append(('sleep', 0.3))
        out += [('see', r) for r in sorted(seen)]
    return out


class Unowned:
    """Readers of a plain stream buffer: closing them, any number of times, does nothing."""

    def __init__(self, ops):
        self.ops = ops
        self.outcome = None

    def main(self, s):
        sb = StreamBuffer(ScriptSource([[1, 2]], s))
        self.problems = []
        with sb:
            v_sleep(1)
            r = sb.mk_reader()
            for o in self.ops:
                if o == 'with':
                    with r as q:
                        if q is not r:
                            self.problems.append('entering the reader gives %r' % (q,))
                elif o == 'close':
                    r.close()
                elif o == 'exit':
                    r.exit()
                elif o == 'open':
                    r.open()
                else:
                    self.problems += [] if r.read(ignore_no_item_found=True) is not Ellipsis else ['?']
            if not sb.is_running or r.is_stopped:
                self.problems.append('closing a reader stopped the stream')
            if r.range(0, 9, peek=True) != [(1, 1), (2, 1)]:
                self.problems.append('the reader sees %r' % (r.range(0, 9, peek=True),))

    def check(self, s):
        return self.problems


def run(rep):
    hs = []
    for n in range(1, rep.q(5, 7) + 1):
        for h in histories(n):
            hs.append(('%s' % ' '.join('%s%d' % o for o in h), lambda h=h: Shared([[1, 2, 3]], [looked(h)])))
    rep.explore_many('one thread', hs, bound=rep.q(0, 1), gran='sync')
    hs = [('%s; %d readers of another source' % (' '.join('%s%d' % o for o in h), k), lambda h=h, k=k: Shared([[1, 2, 3]], [looked(h)], bystander=k))
          for n in range(1, rep.q(4, 5) + 1) for h in histories(n) for k in (0, 1, 2)]
    rep.explore_many('two sources', hs, bound=rep.q(0, 1), gran='sync')
    cs = [('%s of session %d raises; %s' % (how, bad, ' '.join('%s%d' % o for o in h)),
           lambda h=h, how=how, bad=bad: Shared([[1, 2, 3]], [h2(h)],
                                                src={how + '_faults': [bad]}))
          for how in ('open', 'info') for bad in (1, 2) for h in ([('open', 0), ('open', 1)], [('open', 0), ('open', 1), ('open', 2)],
                                                                  [('open', 0), ('close', 0), ('open', 1), ('open', 2)])]
    rep.explore_many('failing opens', cs, bound=rep.q(1, 2), gran='sync')
    # many readers, many sessions
    def many(k, order):
        up = [('open', r) for r in range(k)]
        down = [('close', r) for r in {'first': range(k), 'last': range(k - 1, -1, -1), 'mixed': sorted(range(k), key=lambda r: (r * 7) % k)}[order]]
        return up + [('sleep', 0.5)] + [('see', r) for r in range(k)] + down[:-1] + [('sleep', 0.5), ('see', down[-1][1])] + down + \
            [('open', k), ('sleep', 0.5), ('see', k), ('see', 0), ('close', 0), ('see', k), ('close', k)]
    hs = [('%d readers closed %s' % (k, o), lambda k=k, o=o: Shared([[1, 2, 3]], [many(k, o)])) for k in (4, 5, 8, 11, 20, 40) for o in ('first', 'last', 'mixed')]
    hs += [('%d times %d readers' % (n, k), lambda n=n, k=k: Shared([[1, 2, 3]], [[o for i in range(n) for o in
            [('open', i * k + j) for j in range(k)] + [('sleep', 0.4)] + [('see', i * k + j) for j in range(k)] + [('close', i * k + j) for j in range(k)] * 2]]))
           for n, k in ((6, 1), (9, 2), (20, 1), (4, 3))]
    rep.explore_many('many readers', hs, bound=0, gran='sync', max_time=4000)
    # readers that do not come about, at every place of a history
    cs = []
    for n in range(0, rep.q(4, 5)):
        for h in histories(n):
            for how in ('make', 'open'):
                for at in itertools.chain(((i,) for i in range(n + 1)), ((i, i) for i in range(n + 1))):
                    ops = list(looked(h))
                    for i in at:
                        k = [j for j, o in enumerate(ops) if o[0] in ('open', 'close')]
                        ops[(k + [len(ops)])[i]:(k + [len(ops)])[i]] = [('noreader', how), ('sleep', 0.3)]
                    cs.append(('%s, %d readers fail (%s) at %d' % (' '.join('%s%d' % o for o in h), len(at), how, at[0]), lambda ops=ops: Shared([[1, 2, 3]], [ops])))
    rep.explore_many('readers that do not come about', cs, bound=rep.q(0, 1), gran='sync')
    O, C, L, SEE = (lambda r: ('open', r)), (lambda r: ('close', r)), (lambda r: ('late', r)), (lambda r: ('see', r))
    ws = {'with': [('use', 0, L(0), SEE(0)), O(1), SEE(1), C(1)], 'nested': [('use', 0, ('use', 1, L(1)), SEE(0)), C(0), C(1), O(2), L(2), C(2)],
          'failing body': [('fail', 0, L(0)), SEE(0), O(1), L(1), C(1)], 'closed inside': [('use', 0, C(0)), O(1), L(1), C(0), SEE(1), C(1)],
          'two': [O(0), ('use', 1, L(1), C(0)), SEE(0), ('use', 2, L(2))]}
    hs = [('%s, %s' % (n, sc), lambda ops=ops, sc=sc: Shared([sc], [ops])) for n, ops in ws.items()
          for sc in ([1, 2], [('delay', 0.4, 1), 2], [1, ('delay', 0.7, 2)])]
    hs += [('session ends, ' + n, lambda ops=ops: Shared([[1, ('raise', 'x')], [1, 2]], [ops])) for n, ops in {
        'reopened': [O(0), ('sleep', 1), C(0), ('sleep', 1), O(1), L(1), SEE(1), C(1)],
        'closed twice': [O(0), ('sleep', 1), C(0), C(0), O(1), L(1), C(0), SEE(1), C(1)],
        'two readers': [O(0), O(1), ('sleep', 1), C(1), C(0), O(2), L(2), SEE(2), C(2)]}.items()]
    # the session ends itself: every order of what its readers and later ones do
    for n in range(2, rep.q(6, 7)):
        for h in histories(n):
            hs.append(('session ends, %s' % ' '.join('%s%d' % o for o in h),
                       lambda h=h: Shared([[1, ('raise', 'x')], [1, 2], [1, ('raise', 'x')], [1, 2, 3]],
                                          [[x for o in h for x in (o, ('sleep', 1))] + [('see', r) for r in sorted({o[1] for o in h})]])))
    hs += [('configured, ' + n, lambda kw=kw: Shared([[1, 2, 3]], [[O(0), L(0), ('sleep', 1), C(0), O(1), L(1), C(1)]], configure=kw))
           for n, kw in {'manual': dict(maxlen=3, auto_drop=False), 'unlimited': dict(maxlen=None), 'polling': dict(sleep_time_on_read_none_s=0.01)}.items()]
    rep.explore_many('contexts and endings', hs, bound=rep.q(1, 2), gran='sync')
    # from several threads
    ts = {
        'close two readers': ([O(0), O(1)], [[C(0)], [C(1)]]),
        'close one reader twice': ([O(0), O(1)], [[C(0)], [C(0)], [SEE(1)]]),
        'close the only reader twice': ([O(0)], [[C(0)], [C(0)]]),
        'open and close': ([O(0)], [[C(0)], [O(1), L(1), C(1)]]),
        'open twice': ([], [[O(0), L(0)], [O(1), L(1)]]),
        'open, close; open, close': ([], [[O(0), L(0), C(0)], [O(1), L(1), C(1)]]),
        'close, reopen': ([O(0)], [[C(0), O(2), L(2)], [O(1), L(1), C(1)]]),
    }
    for n, (setup, threads) in ts.items():
        rep.explore('threads: ' + n, lambda setup=setup, threads=threads: Shared([[1, 2]], threads, setup=setup), bound=rep.q(1, 2))
        rep.explore('threads at synchronisation points: ' + n, lambda setup=setup, threads=threads: Shared([[1, 2]], threads, setup=setup),
                    bound=rep.q(2, 4), gran='sync')
    us = [(' '.join(h), lambda h=h: Unowned(h)) for n in (1, 2, 3) for h in itertools.product(('with', 'close', 'read', 'exit', 'open'), repeat=n)]
    rep.explore_many('readers of a plain buffer', us, bound=0, gran='sync')


def h2(h):
    """Only those readers whose open works can be looked at; the last one always works."""
    last = h[-1][1]
    return h[:1] + [('sleep', 0.3)] + h[1:] + [('sleep', 0.3), ('late', last), ('see', last), ('close', last)]
