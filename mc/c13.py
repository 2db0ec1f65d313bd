"""C13: sessions are isolated; a restart never mixes old and new data."""
import itertools

from .life import Life

BEFORE, AFTER = 'start', ('stop', 'exit')


class Sessions(Life):
    """Judges readers, iteration and queries of a history with restarts."""

    def starts(self):
        """[(session, call)] in order."""
        out = []
        log = self.src.log
        for c in self.calls:
            if c.op[0] in ('start', 'enter'):
                for e in log[c.at:c.end]:
                    if e[0] == 'open-enter' and e[-1] == log[c.at][-1]:
                        out.append((e[1], c))
        return sorted(out, key=lambda x: x[0])

    def allowed(self, c):
        """Sessions a query overlapping starts may refer to."""
        st = self.starts()
        done = [k for k, x in st if x.end is not None and x.end <= c.at]
        begun = [k for k, x in st if x.at < c.end]
        lo = max(done or [0])
        return [k for k in begun if k >= lo] + ([0] if not done else [])

    def good(self, k):
        """What the buffer of session k accepts of what the source returned, and whether it ended by itself."""
        items = [x for x in self.src.returned if x[1] == k]
        for i, x in enumerate(items):
            if x[0] in self.src.key_faults or i and x[0] <= items[i - 1][0]:
                return items[:i], True
        return items, any(e[0] == 'raise' and e[1] == k for e in self.src.log)

    def check(self, s):
        self.outcome = self.summary()
        out = self.discipline(grace=False)
        st = self.starts()
        for k, c in st:
            if c.res != 'ok':
                out.append('%r' % c)
        session = {}
        nexts = {}
        for c in self.calls:
            k = c.op[0]
            if c.end is None:
                continue
            if isinstance(c.res, tuple) and c.res[0] == 'raise':
                if k == 'next' and c.res[1] in ('StopIteration', 'StreamNotStartedError') or k == 'mk' and 0 in self.allowed(c):
                    continue
                out.append('%r at %s' % (c, c.t0))
                continue
            if k == 'mk':
                info = self.readers[c.op[1]].source_reader_info
                n = info.get('session') if isinstance(info, dict) else None
                if self.src.same_info is not None and info == self.src.same_info:
                    n = max(self.allowed(c))        # histories of one user only
                session[c.op[1]] = n
                if n not in self.allowed(c):
                    out.append('%r at %s: reader of session %r, expected one of %r' % (c, c.t0, n, self.allowed(c)))
            elif k in ('drain', 'all', 'read'):
                n = session[c.op[1]]
                vals = c.value if k != 'read' else [] if c.value is None else [c.value]
                good, _ = self.good(n)
                pos = [good.index(x) if x in good else None for x in vals]
                if None in pos or any(b != a + 1 for a, b in zip(pos, pos[1:])) or k == 'all' and pos and pos[0] != 0:
                    out.append('reader of session %d sees %r, ingested %r' % (n, vals, good))
            elif k == 'next' and c.value is not None:
                if c.value[1] not in self.allowed(c):
                    out.append('next(stream_buffer) at %s gave %r, current session(s) %r' % (c.t0, c.value, self.allowed(c)))
                nexts.setdefault(c.value[1], []).append(c.value)
            elif k == 'stopped':
                n = session[c.op[1]]
                later = [x for m, x in st if m > n and x.end <= c.at] + self.stops_after(n, c, True)
                over = later or [x for m, x in st if m > n and x.at < c.end] or self.stops_after(n, c, False) or self.self_ended(n, c)
                if later and not c.value:
                    out.append('a reader of session %d does not report stopped at %s' % (n, c.t0))
                if not over and c.value:
                    out.append('a reader of session %d reports stopped at %s' % (n, c.t0))
            elif k == 'running':
                n = max(self.allowed(c))
                if len(self.allowed(c)) == 1 and n and not self.stops_after(n, c, False) and not self.self_ended(n, c) and c.value is not True:
                    out.append('is_running gave %r at %s in session %d' % (c.value, c.t0, n))
            elif k == 'same':
                if bool(c.value) != (session[c.op[1]] == session[c.op[2]]):
                    out.append('is_same_buffer gave %r for readers of sessions %r and %r' % (c.value, session[c.op[1]], session[c.op[2]]))
            elif k == 'info':
                if self.src.same_info is not None and c.value == self.src.same_info:
                    continue
                n = c.value.get('session') if isinstance(c.value, dict) else 0
                al = self.allowed(c)
                if n not in al and not (n == 0 and len(al) > 1):
                    out.append('source_reader_info gave %r at %s, session(s) %r' % (c.value, c.t0, al))
        for k, v in nexts.items():
            if v != self.good(k)[0][:len(v)]:
                out.append('next(stream_buffer) gave %r of session %d, ingested %r' % (v, k, self.good(k)[0]))
        # in the end every reader has exactly its own session
        for name, r in self.readers.items():
            n = session.get(name)
            if n is None:
                continue
            final = self.final.get(name)
            good, ended = self.good(n)
            sure = self.sure(n, ended)
            if final[:len(sure)] != sure or final != good[:len(final)]:
                out.append('in the end a reader of session %d sees %r, ingested %r' % (n, final, good))
            if not r.is_stopped:
                out.append('in the end a reader of session %d does not report stopped' % n)
        for (a, x), (b, y) in itertools.combinations(sorted(session.items()), 2):
            if self.same[a, b] != (x == y):
                out.append('is_same_buffer gave %r for readers of sessions %r and %r' % (self.same[a, b], x, y))
        return out

    def sure(self, n, ended):
        """Items certainly in the buffer of session n: those returned before a stop or restart began."""
        good, _ = self.good(n)
        log = self.src.log
        stop_at = None
        seen = False
        k = 0
        sure = 0
        for e in log:
            if e[0] == 'open' and e[1] == n:
                seen = True
            if seen and e[0] == 'op' and e[2].op[0] in ('stop', 'exit', 'start', 'enter'):
                break
            if seen and e[1] == n and e[0] == 'item':
                k += 1
            if seen and e[1] == n and e[0] in ('read', 'close'):
                sure = k
        return good[:sure]

    def stops_after(self, n, c, complete):
        st = dict(self.starts())
        return [x for x in self.calls if x.op[0] in ('stop', 'exit') and x.end is not None and
                (x.end <= c.at if complete else x.at < c.end) and n in st and
                (x.at >= st[n].end if complete else x.end > st[n].at)]

    def self_ended(self, n, c):
        log = self.src.log
        return any(e[1] == n and (e[0] in ('raise', 'key-fault', 'close')) for e in log[:c.end]) or self.good(n)[1]

    def at_end(self):
        self.final = {n: r.range(-1, 10 ** 6, peek=True) for n, r in self.readers.items()}
        self.same = {(a, b): self.readers[a].is_same_buffer(self.readers[b])
                     for a, b in itertools.combinations(sorted(self.readers), 2)}


OLD = {'data': [5, 6, 7], 'late item': [5, ('delay', 1.5, 6), 7], 'late failure': [5, ('delay', 3, ('raise', 'x'))],
       'failed': [5, ('raise', 'x')], 'nothing': [], 'late bad key': [5, ('delay', 1.5, 4)], 'pause': [5, None, None, 6],
       'read in progress': [5, ('delay', 0.7, 6), 7], 'late none': [('delay', 1.7, None), 5]}
NEW = {'data': [1, 5, 6], 'slow': [('delay', 0.8, 1), ('delay', 0.9, 6), 7], 'nothing': []}
S, MK, NAP = ('start',), (lambda r: ('mk', r)), ('sleep', 0.2)
LOOK = [('running',), ('stopped', 'a'), ('stopped', 'b'), ('same', 'a', 'b'), ('info',), ('next',), ('rinfo', 'a'), ('rinfo', 'b')]


def run(rep):
    hs = []
    for (o, so), (n, sn) in itertools.product(OLD.items(), NEW.items()):
        for h, ops in {
            'restart': [S, MK('a'), ('next',), NAP, S, MK('b'), ('next',)] + LOOK + [('sleep', 5), ('drain', 'a'), ('drain', 'b'), ('next',), ('next',), ('next',), ('next',)] + LOOK,
            'stop, start': [S, NAP, MK('a'), ('next',), ('next',), ('stop',), ('next',), S, MK('b')] + LOOK + [('sleep', 5), ('read', 'a'), ('drain', 'b'), ('next',)] + LOOK,
            'twice': [S, MK('a'), NAP, ('next',), S, MK('b'), NAP, ('next',), S, MK('c'), ('next',), ('sleep', 4), ('next',), ('next',), ('drain', 'b'), ('drain', 'c'), ('same', 'a', 'c')] + LOOK,
            'with': [('with', MK('a'), NAP, ('next',)), ('with', MK('b'), NAP, ('next',), ('next',), ('drain', 'b'), ('running',)), ('stopped', 'b'), ('drain', 'a'), ('next',)],
        }.items():
            hs.append(('%s, old %s, new %s' % (h, o, n), lambda so=so, sn=sn, ops=ops: Sessions([so, sn], [ops], src=dict(close_faults=()))))
            for same in ({'device': 1}, {}):
                hs.append(('%s, old %s, new %s, info %r' % (h, o, n, same), lambda so=so, sn=sn, ops=ops, same=same: Sessions(
                    [so, sn], [ops], src=dict(same_info=same))))
    rep.explore_many('one user', hs, bound=rep.q(1, 2), gran='sync')
    # another thread reads, iterates and asks while the stream is restarted
    hs = []
    user = {'next': [('next',)] * 4, 'old reader': [('read', 'a'), ('stopped', 'a'), ('drain', 'a'), ('all', 'a')],
            'make': [('mk', 'c'), ('mk', 'd'), ('same', 'c', 'd'), ('drain', 'd'), ('all', 'c')],
            'ask': [('running',), ('info',), ('running',), ('info',)]}
    for o in ('data', 'late item', 'failed') if not rep.thorough else OLD:
        for u, ops in user.items():
            for end in ([S, MK('b'), ('next',)], [('stop',), S, MK('b')]):
                if u == 'next':
                    end = [x for x in end if x != ('next',)]
                hs.append(('old %s, another thread: %s, %s' % (o, u, end), lambda o=o, ops=ops, end=end: Restarted(
                    [OLD[o], NEW['data']], [end + [('sleep', 2), ('all', 'b'), ('stopped', 'a'), ('same', 'a', 'b')], ops])))
    rep.explore_many('two threads', hs, bound=1)
    if rep.thorough:
        rep.explore_many('two threads, synchronisation points', hs, bound=2, gran='sync')
    for n, f in hs[2:8]:
        rep.explore('synchronisation points: ' + n, f, bound=rep.q(2, 3), gran='sync')
    # many sessions: a reader of each, all of them looked at in the end
    names = 'abcdefghijklmnop'
    hs = []
    for k in (6, 12):
        for how, one in {'restart': lambda r: [S, MK(r), NAP, ('next',)], 'stop': lambda r: [S, MK(r), NAP, ('next',), ('stop',)],
                         'with': lambda r: [('with', MK(r), NAP, ('next',), ('drain', r))]}.items():
            for same in (None, {'device': 1}):
                ops = [o for r in names[:k] for o in one(r)]
                ops += [o for r in names[:k] for o in (('drain', r), ('stopped', r), ('all', r))] + [('same', a, b) for a, b in itertools.combinations(names[:k], 2)]
                hs.append(('%s, %d sessions, info %r' % (how, k, same), lambda ops=ops, k=k, same=same: Sessions(
                    [NEW['data']] * k, [ops], src=dict(same_info=same))))
    rep.explore_many('many sessions', hs, bound=0, gran='sync', max_time=4000)
    hs = [('close of the first session fails, ' + o, lambda o=o: Sessions([OLD[o], NEW['data']], [
        [S, MK('a'), NAP, S, MK('b'), ('sleep', 2), ('all', 'a'), ('all', 'b'), ('running',), ('stopped', 'a')]], src=dict(close_faults=[1])))
          for o in OLD]
    rep.explore_many('closing fails', hs, bound=rep.q(1, 2), gran='sync')


class Restarted(Sessions):
    def prepare(self):
        self.call(0, S)
        self.call(0, MK('a'))
        self.call(0, ('sleep', 0.1))
