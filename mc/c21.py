"""C21: readers can only be obtained from a fully started stream."""
import itertools

from .c13 import Sessions
from .env import ScriptSource, StreamBuffer, stream2py
from .life import Life
from stream2py.exceptions import StreamNotStartedError


class Counted(ScriptSource):
    """The info says how many reads of the session have begun."""

    @property
    def info(self):
        d = super().info
        d['reads'] = sum(e[0] == 'read' and e[1] == self.session for e in self.log)
        return d


class Obtain(Sessions):
    """Readers a, b, ... made from the stream; readers o, p, ... made from another one, to be attached."""
    other = None

    def __init__(self, sessions, threads, *, others=(), seen=1, begun=0, stopped=False, **kw):
        super().__init__(sessions, threads, **kw)
        self.others, self.seen, self.begun, self.stopped = others, seen, begun, stopped

    def make(self, src):
        src.__class__ = Counted
        return super().make(src)

    def prepare(self):
        if self.others:
            self.osrc = ScriptSource([[1, 3, 5]], self.s, point_in_read=False)
            self.osb = StreamBuffer(self.osrc, maxlen=10)
            self.osb.start()
            self.s.wait_for(self.osrc.idle, 'other source idle')
            for r in self.others:
                self.readers[r] = self.osb.mk_reader()
                for _ in range(self.seen):
                    next(self.readers[r])
            self.osb.stop()
        for _ in range(self.begun):
            self.call(0, ('start',))
            self.call(0, ('sleep', 0.1))
        if self.stopped:
            self.call(0, ('stop',))

    def starting(self, c):
        """Does a start overlap the call?"""
        return [x for x in self.calls if x.op[0] in ('start', 'enter') and x.at < c.end and (x.end is None or x.end > c.at)]

    def opened(self, n, c):
        """Was session n open and its info taken when call c ended?"""
        return any(e[0] == 'info' and e[1] == n for e in self.src.log[:c.end])

    def check(self, s):
        self.outcome = self.summary()
        out = []
        st = self.starts()
        session = {}                         # reader -> session, None: of the other stream, '?': unknown
        cursor = {r: [1, 3, 5][self.seen - 1] if self.seen else None for r in self.others}
        got = {}
        for r in self.others:
            session[r] = None
        for c in self.calls:
            k, a = c.op[0], c.op[1] if len(c.op) > 1 else None
            if c.end is None:
                continue
            al = self.allowed(c)
            err = c.res[1] if isinstance(c.res, tuple) and c.res[0] == 'raise' else None
            if k in ('mk', 'attach', 'next') and err is not None:
                if k == 'next' and err == 'StopIteration':
                    continue
                if not isinstance(c.value, StreamNotStartedError):
                    out.append('%s at %s: %r' % (k, c.t0, c.value))
                elif 0 not in al and not self.starting(c):
                    out.append('%s at %s: %r although the stream is started' % (k, c.t0, c.value))
                if k == 'mk':
                    session[a] = '?'
                continue
            if k == 'next' and al == [0] and not self.starting(c):
                out.append('next at %s before the first start: %r' % (c.t0, c.res))
            if err is not None:
                if a in session and session[a] == '?':
                    continue
                if k == 'stop' and not [x for m, x in st if x.at < c.end]:
                    continue
                out.append('%r at %s: %r' % (c, c.t0, c.value))
                continue
            if k == 'mk':
                info = self.readers[a].source_reader_info
                n = info.get('session') if isinstance(info, dict) else None
                session[a] = n
                got[a] = []
                if n not in al or n == 0:
                    out.append('mk at %s gave a reader of session %r (info %r), expected one of %r' % (c.t0, n, info, al))
                elif not self.opened(n, c):
                    out.append('mk at %s gave a reader of session %r before it was fully opened' % (c.t0, n))
                elif info.get('reads') != 0:
                    out.append('info %r was not taken before the first read' % (info,))
            elif k == 'attach':
                if al == [0] and not self.starting(c):
                    out.append('attach before the first start: %r' % (c.res,))
                if a in self.final_session:
                    session[a] = [n for n in al if n]
                got[a] = []
            elif k in ('read', 'drain'):
                v = [] if c.value is None else c.value if k == 'drain' else [c.value]
                got.setdefault(a, []).extend(v)
                if isinstance(session.get(a), int):
                    good, _ = self.good(session[a])
                    if [x for x in v if x not in good]:
                        out.append('reader %s of session %r gave %r, ingested %r' % (a, session[a], v, good))
            elif k == 'running':
                if al == [0] and not self.starting(c) and c.value is not False:
                    out.append('is_running before the first start: %r' % (c.value,))
                if type(c.value) is not bool:
                    out.append('is_running: %r' % (c.value,))
                n = max(al)
                if len(al) == 1 and n and not self.starting(c) and not self.stops_after(n, c, False) and not self.self_ended(n, c) and c.value is not True:
                    out.append('is_running gave %r at %s in session %d' % (c.value, c.t0, n))
            elif k == 'info':
                n = c.value.get('session') if isinstance(c.value, dict) else 0
                if n not in al and not (n == 0 and self.starting(c)):
                    out.append('source_reader_info gave %r at %s, session(s) %r' % (c.value, c.t0, al))
                elif n and (c.value.get('reads') != 0 or not self.opened(n, c)):
                    out.append('source_reader_info gave %r at %s, not the info taken right after opening' % (c.value, c.t0))
            elif k == 'rinfo' and isinstance(session.get(a), int):
                if c.value.get('session') != session[a]:
                    out.append('info of a reader of session %d: %r' % (session[a], c.value))
        # in the end
        for r, n in session.items():
            if n == '?' or n is None:
                continue
            if isinstance(n, list):
                # attached: one of the sessions it may be
                seen = {x[1] for x in self.final[r]}
                if len(seen) > 1 or seen - set(n):
                    out.append('a reader attached to session(s) %r sees %r' % (n, self.final[r]))
                    continue
                n = seen.pop() if seen else n[0] if len(n) == 1 else None
                if n is None:
                    continue
            good, ended = self.good(n)
            sure = self.sure(n, ended)
            final = self.final[r]
            if final[:len(sure)] != sure or final != good[:len(final)]:
                out.append('in the end a reader of session %d sees %r, ingested %r' % (n, final, good))
            cur = cursor.get(r)
            want = [x for x in final if cur is None or x[0] > cur]
            have = got.get(r, []) + self.rest[r]
            if have != want:
                out.append('reader %s of session %d with cursor %r was given %r, the buffer has %r' % (r, n, cur, have, final))
            if not self.readers[r].is_stopped:
                out.append('in the end reader %s does not report stopped' % r)
        return out

    def at_end(self):
        self.final = {n: r.range(-1, 10 ** 6, peek=True) for n, r in self.readers.items()}
        self.final_session = {n for n, r in self.readers.items() if n in self.others}
        self.rest = {}
        for n, r in self.readers.items():
            self.rest[n] = []
            while True:
                x = r.read(ignore_no_item_found=True)
                if x is None:
                    break
                self.rest[n].append(x)


class Follows(Life):
    """A reader attached to a running stream follows it: it iterates to that session's end."""

    def __init__(self, old, new, seen, how):
        super().__init__([old, new], [])
        self.old, self.new, self.seen, self.how = old, new, seen, how

    def main(self, s):
        self.s = s
        src = self.src = ScriptSource([self.old, self.new], s)
        sb = self.sb = self.make(src)
        s.region(False)
        sb.start()
        s.wait_for(src.idle, 'source idle')
        r = sb.mk_reader()
        before = []
        for _ in range(self.seen):
            before.append(next(r))
        if self.how == 'stopped':
            sb.stop()
        s.region(True)
        sb.start()
        sb.attach_reader(r)
        fresh = sb.mk_reader()
        self.same = r.is_same_buffer(fresh), r.is_stopped
        self.got = []
        self.ends = 0
        end = s.spawn(self.stop, 'stopper')
        for x in r:
            self.got.append((x, s.now))
        self.t_end = s.now
        s.region(False)
        s.join(end)
        self.fresh = fresh.range(-1, 10 ** 6, peek=True)
        self.after = r.is_stopped
        self.cursor = before[-1][0] if before else None

    def stop(self):
        from .sched import v_sleep
        v_sleep(2.5)
        self.called = self.s.now
        self.sb.stop()

    def check(self, s):
        self.outcome = self.got
        out = []
        want = [x for x in self.fresh if self.cursor is None or x[0] > self.cursor]
        if [x for x, _ in self.got] != want:
            out.append('the attached reader with cursor %r gave %r, the buffer has %r' % (self.cursor, self.got, self.fresh))
        if self.same != (True, False):
            out.append('after attaching: same buffer %r, stopped %r' % self.same)
        if not self.called - 1e-6 <= self.t_end <= self.called + 0.5:
            out.append('the iteration ended at %s, the stop was at %s' % (self.t_end, self.called))
        if not self.after:
            out.append('not stopped in the end')
        return out


S, STOP, NAP, TICK = ('start',), ('stop',), ('sleep', 0.35), ('sleep', 0.01)


def run(rep):
    # before, between and after, in one thread
    ask = [('running',), ('info',), ('mk', 'a'), ('attach', 'o'), ('next',)]
    hs = []
    scripts = {'data': [2, 4, 6, 8], 'nothing': [], 'late': [('delay', 0.5, 2), None, 4], 'fails': [2, 4, ('raise', 'x')], 'fails at once': [('raise', 'x')]}
    for n, sc in scripts.items():
        for seen in (0, 1, 3):
            for order in itertools.permutations(ask, 5) if seen == 1 and n == 'data' else [ask]:
                order = list(order)
                again = [('mk', 'b') if o == ('mk', 'a') else ('attach', 'p') if o == ('attach', 'o') else o for o in order if o != ('next',)]
                hs.append(('%s; %d seen; %s' % (n, seen, order), lambda sc=sc, seen=seen, order=order, again=again: Obtain(
                    [sc, [3, 5, 7]], [order + [S] + [o for o in order if o != ('next',)] + [NAP, ('drain', 'o'), ('rinfo', 'a'), S] + again +
                                      [('rinfo', 'a'), ('rinfo', 'b'), ('drain', 'p'), NAP, STOP, ('running',), ('mk', 'c'), ('drain', 'c'), ('info',)]],
                    others=('o', 'p'), seen=seen)))
    rep.explore_many('in one thread', hs, bound=rep.q(1, 2), gran='sync')
    # while another thread starts it for the first time, or starts it again
    users = {'mk': [('mk', 'a'), ('drain', 'a'), ('rinfo', 'a')], 'attach': [('attach', 'o'), ('drain', 'o')], 'running': [('running',), ('running',)],
             'info': [('info',), ('info',)], 'mixed': [('info',), ('mk', 'a'), ('info',)], 'next': [('next',), ('next',)],
             'ask, then make': [('running',), ('mk', 'a'), ('running',)]}
    for begun, label in ((0, 'first start'), (1, 'restart')):
        hs = []
        for n in ('data', 'nothing', 'fails') if not rep.thorough else scripts:
            for u, ops in users.items():
                for end in ([S, ('info',), ('running',), ('mk', 'z')], [S, STOP, ('info',), S, ('mk', 'z'), ('info',)]):
                    if n != 'data' and len(end) == 6:
                        continue
                    hs.append(('%s, %s | %s' % (n, end, u), lambda n=n, ops=ops, end=end, begun=begun: Obtain(
                        [scripts[n], [3, 5, 7]], [end + [NAP], ops], others=('o',) if ('attach', 'o') in ops else (), begun=begun)))
        rep.explore_many('during the ' + label, hs, bound=1)
        for n, f in hs if rep.thorough else hs[0:4:2]:
            rep.explore('during the %s, synchronisation points: %s' % (label, n), f, bound=2, gran='sync')
        hs = []
        for a, b in itertools.combinations(('mk', 'attach', 'running', 'info'), 2):
            n = 3 if rep.thorough else 2 - begun
            hs.append((a + ' | ' + b, lambda a=a, b=b, n=n, begun=begun: Obtain(
                [scripts['data'], [3, 5, 7]], [[S, ('mk', 'z')], users[a][:n], users[b][:n]], others=('o',) if 'attach' in (a, b) else (), begun=begun)))
        for n, f in hs if rep.thorough or not begun else hs[:3]:
            rep.explore('two threads during the %s: %s' % (label, n), f, bound=rep.q(1, 2), gran='sync')
    # while the source takes its time to open
    hs = []
    for begun in (0, 1, 2):
        for delay in (0.2, 5):
            for u, ops in users.items():
                hs.append(('%s, opening takes %s s | %s' % (['first start', 'start after a stop', 'restart'][begun], delay, u),
                           lambda ops=ops, begun=begun, delay=delay: Obtain(
                               [scripts['data'], [3, 5, 7]], [[TICK, S, ('info',), ('running',), ('mk', 'z'), NAP], [TICK] + ops], others=('o',) if ('attach', 'o') in ops else (),
                               begun=min(begun, 1), stopped=begun == 1, src=dict(open_delay=delay))))
    rep.explore_many('slow opening', hs, bound=rep.q(1, 2))
    # attached readers follow the session they are attached to
    hs = [('%s, then %s; %d seen; old session %s' % (o, n, seen, how), lambda o=o, n=n, seen=seen, how=how: Follows(o, n, seen, how))
          for o in ([1, 2, 3], [5, 6, 7]) for n in ([2, 4, 6], [4, ('delay', 1.1, 6), 8], [], [1], [('delay', 1, 7), None, 8, None, 9])
          for seen in (0, 1, 2, 3) for how in ('stopped', 'running')]
    rep.explore_many('attached readers', hs, bound=rep.q(1, 2), gran='sync')
