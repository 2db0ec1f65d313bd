"""C14: a failing source ends the stream cleanly and loses nothing already ingested."""
import itertools

from .c13 import Sessions, S, MK, NAP

KINDS = [StopIteration, ValueError, TypeError, KeyError, IndexError, AttributeError, RuntimeError, OSError, EOFError, TimeoutError,
         NotImplementedError, AssertionError, MemoryError]
FAIL = ('raise', 'x')


class Failing(Sessions):
    """Session `bad` fails in a given way; afterwards the stream is started again and works as new."""

    def __init__(self, *a, bad=1, how='read', **kw):
        super().__init__(*a, **kw)
        self.bad, self.how = bad, how

    def check(self, s):
        self.outcome = self.summary()
        out = []
        log = self.src.log
        if self.how in ('open', 'info'):
            # the start that opened the bad session
            for c in self.calls:
                if c.op[0] in ('start', 'enter') and any(e[0] == 'open-enter' and e[1] == self.bad for e in log[c.at:c.end]):
                    if c.res != ('raise', self.src.fault.__name__):
                        out.append('start of the session whose %s raises: %r' % (self.how, c.res))
                    later = [x for x in self.calls if x.at >= c.end]
                    for x in later:
                        if x.op[0] in ('start', 'enter'):
                            break
                        if x.op[0] == 'running' and x.value is not False:
                            out.append('is_running gave %r after a start that failed' % (x.value,))
                        if x.op[0] in ('stop', 'exit') and x.res != 'ok':
                            out.append('%r after a start that failed' % x)
                    if self.how == 'info' and not any(e[0] == 'close' and e[1] == self.bad for e in log[c.at:c.end]):
                        out.append('the source opened by the failed start was not closed')
                    self.calls.remove(c)
                    break
            else:
                out.append('session %d was never started' % self.bad)
            self.calls = [c for c in self.calls if not (isinstance(c.res, tuple) and c.res[0] == 'raise' and c.op[0] in ('mk', 'next', 'stop', 'with'))]
        for k in range(1, self.src.session + 1):
            closes = sum(e[0] == 'close' and e[1] == k for e in log)
            opened = any(e[0] == 'open' and e[1] == k for e in log)
            if closes != opened:
                out.append('session %d was closed %d times' % (k, closes))
            # a failure ends the session: nothing is read any more and the source is closed at once
            i = self.failed_at(k)
            if i is not None:
                reads = [e for e in log[i + 1:] if e[1] == k and e[0] == 'read']
                close = [e for e in log[i + 1:] if e[1] == k and e[0] == 'close']
                if reads:
                    out.append('session %d failed at %s and was read again at %s' % (k, log[i][-2], reads[0][-2]))
                elif close and close[0][-2] > log[i][-2] + 0.5:
                    out.append('session %d failed at %s and was closed at %s' % (k, log[i][-2], close[0][-2]))
        # what is observed once the failed session is over
        for c in self.calls:
            if c.op[0] == 'running' and c.end is not None and self.over(c) and c.value is not False:
                out.append('is_running gave %r at %s after the session ended' % (c.value, c.t0))
            if c.op[0] == 'stopped' and c.end is not None and self.over(c) and c.value is not True:
                out.append('a reader reports stopped=%r at %s after the session ended' % (c.value, c.t0))
        return out + super().check(s)

    def failed_at(self, k):
        """Where in the log session k failed: a read that raises, or an item that cannot be put in the buffer."""
        accepted = len(self.good(k)[0])
        for i, e in enumerate(self.src.log):
            if e[1] != k or e[0] not in ('raise', 'item'):
                continue
            if e[0] == 'raise' or not accepted:
                return i
            accepted -= 1

    def over(self, c):
        """The latest session begun was closed (virtual) 0.05 s or more before c and no start overlaps."""
        begun = [(e[1], i) for i, e in enumerate(self.src.log[:c.end]) if e[0] == 'open-enter']
        if not begun or any(x.op[0] in ('start', 'enter') and x.at < c.end and (x.end is None or x.end > c.at) for x in self.calls):
            return False
        k = begun[-1][0]
        return any(e[0] in ('closed', 'close-fault') and e[1] == k and e[-2] < c.t0 - 0.05 for e in self.src.log[:c.at])

    def starts(self):
        return [x for x in super().starts() if not (self.how in ('open', 'info') and x[0] == self.bad)]

    def allowed(self, c):
        a = super().allowed(c)
        # after a failed start nothing, or the session before, may be visible
        return a + [0] if self.how in ('open', 'info') else a

    def sure(self, n, ended):
        if n == self.bad and self.how not in ('open', 'info') and self.ended_itself(n):
            return self.good(n)[0]
        return super().sure(n, ended)

    def ended_itself(self, n):
        """The failure came before any stop or restart of that session began."""
        log = self.src.log
        on = False
        for e in log:
            if e[0] == 'open' and e[1] == n:
                on = True
            if on and e[0] == 'op' and e[2].op[0] in ('stop', 'exit', 'start', 'enter'):
                return False
            if on and e[0] == 'close' and e[1] == n:
                return True
        return False


ENDS = {
    'read raises at once': [FAIL], 'read raises': [5, 6, FAIL], 'read raises late': [5, ('delay', 0.5, 6), ('delay', 0.7, FAIL)],
    'pause, then read raises': [5, None, None, FAIL], 'equal key': [5, 6, 6, 7], 'smaller key': [5, 6, 2, 8],
    'first item has no key': [66, 5], 'an item has no key': [5, 6, 66, 7], 'very late': [5, ('delay', 1.6, FAIL)],
    'no key, late': [5, ('delay', 1.6, 66), 7],
}
ASK = [('running',), ('stopped', 'a')]


def run(rep):
    hs = []
    again = [S, MK('b'), ('running',), ('stopped', 'b'), ('same', 'a', 'b'), ('sleep', 1), ('all', 'b'), ('drain', 'a'), ('running',), ('next',), ('next',), ('stop',)]
    for (n, sc), maxlen, close in itertools.product(ENDS.items(), (10, None, 3), ((), (1,))):
        for h, ops in {
            'ends, restarted': [S, MK('a'), ('sleep', 2)] + ASK + [('all', 'a'), ('drain', 'a')] + again,
            'ends, stopped, restarted': [S, MK('a'), ('next',), ('sleep', 2)] + ASK + [('stop',), ('all', 'a'), ('drain', 'a')] + ASK + again,
            'restarted at once': [S, MK('a')] + again,
            'stopped early': [S, MK('a'), NAP, ('stop',)] + ASK + again,
            'with': [('with', MK('a'), NAP, ('read', 'a'), ('sleep', 2), ('drain', 'a'), ('running',))] + ASK + again,
            'second session': [S, MK('a'), ('sleep', 2), S, ('mk', 'c'), ('sleep', 2), ('drain', 'c'), ('running',), ('stopped', 'c')] + again[:-1],
        }.items():
            hs.append(('%s; %s; maxlen %s; close %s' % (n, h, maxlen, 'raises' if close else 'works'),
                       lambda sc=sc, ops=ops, maxlen=maxlen, close=close: Failing(
                           [sc, sc, [1, 2]] if h2(ops) else [sc, [1, 2]], [ops], maxlen=maxlen, src=dict(key_faults=[66], close_faults=close))))
    rep.explore_many('the stream ends by itself', hs, bound=rep.q(1, 2), gran='sync')
    # one failure after the other
    hs = []
    for (n, sc), k, close in itertools.product(ENDS.items(), (5, 9), ((), (1, 3, 4))):
        ops = [o for r in 'abcdefghi'[:k] for o in (S, MK(r), ('sleep', 4))] + ASK + [o for r in 'abcdefghi'[:k] for o in (('all', r), ('drain', r), ('stopped', r))]
        hs.append(('%s; %d sessions; close %s' % (n, k, 'raises' if close else 'works'),
                   lambda sc=sc, ops=ops, k=k, close=close: Failing([sc] * k, [ops], src=dict(key_faults=[66], close_faults=close))))
    rep.explore_many('one failure after the other', hs, bound=0, gran='sync', max_time=2000)
    # failures of other kinds, some of which mean something to Python itself
    hs = []
    for f in KINDS:
        for n in ('read raises at once', 'pause, then read raises', 'an item has no key', 'very late'):
            for close in ((), (1, 2)):
                hs.append(('%s of kind %s; close %s' % (n, f.__name__, 'raises' if close else 'works'), lambda f=f, n=n, close=close: Failing(
                    [ENDS[n], [1, 2]], [[S, MK('a'), ('sleep', 2)] + ASK + [('all', 'a'), ('drain', 'a')] + again],
                    src=dict(key_faults=[66], close_faults=close, fault=f))))
        for how, kw in {'open': 'open_faults', 'info': 'info_faults'}.items():
            for close in ((), (1, 2)):
                hs.append(('%s raises %s; close %s' % (how, f.__name__, 'raises' if close else 'works'), lambda f=f, how=how, kw=kw, close=close: Failing(
                    [[1, 2]], [[S, ('running',), ('stop',), ('running',), S, MK('b'), ('running',), NAP, ('all', 'b'), ('stop',), ('running',)]],
                    bad=1, how=how, src={kw: [1], 'close_faults': close, 'fault': f})))
    rep.explore_many('kinds of failure', hs, bound=1, gran='sync')
    # the failure at the same time as another thread's calls
    hs = []
    for n in ('read raises', 'smaller key', 'an item has no key', 'very late'):
        for u, ops in {'stop': [('stop',)], 'restart': [S, MK('c'), ('sleep', 1), ('all', 'c')],
                       'read': [('read', 'a'), ('drain', 'a'), ('stopped', 'a'), ('running',)], 'make': [('mk', 'c'), ('drain', 'c'), ('running',)]}.items():
            hs.append((n + ' | ' + u, lambda n=n, ops=ops: During([ENDS[n], [1, 2]], [[NAP, ('running',), ('sleep', 3), ('running',), ('all', 'a')], ops],
                                                                   src=dict(key_faults=[66]))))
    rep.explore_many('the stream ends while it is used', hs, bound=rep.q(1, 2))
    hs = []
    for how, kw in {'open': 'open_faults', 'info': 'info_faults'}.items():
        for bad, close in itertools.product((1, 2), ((), (1, 2))):
            before = [S, MK('a'), NAP] if bad == 2 else []
            tail = [('sleep', 1), ('all', 'b'), ('running',), ('next',), ('stop',)] + ([('all', 'a'), ('stopped', 'a'), ('same', 'a', 'b')] if bad == 2 else [])
            for h, ops in {
                'started again': before + [S, ('running',), S, MK('b'), ('running',)] + tail,
                'stopped, started again': before + [S, ('running',), ('stop',), ('running',), S, MK('b'), ('running',)] + tail,
                'used anyway': before + [S, ('running',), ('mk', 'x'), ('next',), ('running',), S, MK('b'), ('running',)] + tail,
                'later': before + [S, ('sleep', 2), ('running',), S, MK('b'), ('running',)] + tail,
                'stopped before': before + ([('stop',)] if before else []) + [S, ('running',), S, MK('b')] + tail,
                'with': before + [('with', ('running',)), ('running',), ('with', MK('b'), ('running',), NAP, ('all', 'b'))] + ([('all', 'a')] if bad == 2 else []),
            }.items():
                for script in ([1, 2], [('delay', 1.5, 1), 2]):
                    hs.append(('%s of session %d raises; %s; %s; close %s' % (how, bad, h, script, 'raises' if close else 'works'),
                               lambda how=how, kw=kw, bad=bad, ops=ops, close=close, script=script: Failing(
                                   [script], [ops], bad=bad, how=how, src={kw: [bad], 'close_faults': close})))
    rep.explore_many('the start fails', hs, bound=rep.q(1, 2), gran='sync')


def h2(ops):
    return ('mk', 'c') in ops


class During(Failing):
    def prepare(self):
        self.call(0, S)
        self.call(0, MK('a'))
