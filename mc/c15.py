"""C15: the buffer retains exactly the promised window."""
import itertools

from .env import StreamBuffer, ScriptSource
from .life import EPS
from .sched import v_sleep


class Window:
    """The main thread performs ops: ('sleep', dt), ('drop', n), ('look',), ('start',), ('stop',); script pushes items.

    Exact expectations need quiet moments: ops are done when the stream had time to settle ('sleep' > polling interval).
    """

    def __init__(self, script, ops, maxlen, auto_drop, sleep=0.3, dropper=None):
        self.script, self.ops, self.maxlen, self.auto, self.sleep, self.dropper = script, ops, maxlen, auto_drop, sleep, dropper
        self.outcome = None

    def main(self, s):
        self.s = s
        src = self.src = ScriptSource([self.script], s)
        sb = self.sb = StreamBuffer(src, maxlen=self.maxlen, sleep_time_on_read_none_s=self.sleep, auto_drop=self.auto)
        s.region(False)
        src.point_in_read = len(self.script) < 100
        self.problems = []
        self.looks = []
        self.dropped = 0             # drops completed
        self.dropping = 0            # drops begun
        ths = []
        sb.start()
        self.r = sb.mk_reader()
        if self.dropper is not None:
            ths.append(s.spawn(self.drops, 'dropper'))
        s.region(True)
        for o in self.ops:
            self.do(o)
        s.join(*ths)
        s.region(False)
        v_sleep(4 * self.sleep + 5)
        self.quiet(True)
        sb.stop()
        # the rule for drops and what is retained do not depend on whether the stream still runs
        want = self.window(list(self.src.returned), self.dropped)
        if self.auto:
            self.refuse(1, want)
        elif want:
            sb.drop(1)
            if self.content() != want[1:]:
                self.problems.append('drop(1) after the stop left %r of %r' % (self.content(), want))

    def refuse(self, n, want=None):
        try:
            self.sb.drop(n)
            self.problems.append('drop(%d) was accepted with automatic dropping on' % n)
        except Exception as e:
            if not isinstance(e, RuntimeError):
                self.problems.append('drop(%d) raised %r' % (n, e))
        if want is not None and self.content() != want:
            self.problems.append('a refused drop left %r of %r' % (self.content(), want))

    def drops(self):
        for n in self.dropper:
            if n < 0:
                v_sleep(-n)
            else:
                self.drop(n)

    def drop(self, n):
        self.dropping += n
        self.sb.drop(n)
        self.dropped += n

    def do(self, o):
        k = o[0]
        if k == 'sleep':
            v_sleep(o[1])
        elif k == 'drop':
            self.drop(o[1])
        elif k == 'refused':
            self.look()
            self.refuse(o[1])
            self.look()
        elif k == 'look':
            self.look()
        elif k == 'quiet':
            self.quiet(False)

    def content(self):
        return self.r.range(-1, 10 ** 6, peek=True)

    def look(self):
        """Content at any moment: a window of the items returned so far."""
        lo_ret, lo_drop = self.src.completed, self.dropped
        c = self.content()
        hi_ret, hi_drop = len(self.src.returned), self.dropping
        self.looks.append(c)
        items = self.src.returned
        ok = [self.window(items[:a], d) for a in range(lo_ret, hi_ret + 1) for d in range(lo_drop, hi_drop + 1)]
        if c not in ok:
            self.problems.append('the buffer holds %r; possible: %r' % (c, ok))

    def window(self, items, dropped):
        if self.auto:
            return items if self.maxlen is None else items[-self.maxlen:]
        return items[dropped:]

    def quiet(self, last):
        """The stream had time to settle: exactly what has to be there is there, and the source was read as far as it must be."""
        items = [x for x in self.script if isinstance(x, int) or isinstance(x, tuple)]
        keys = []
        for x in items:
            while isinstance(x, tuple):
                x = x[2]
            if x is not None:
                keys.append(x)
        want = [(k, 1) for k in keys]
        if not self.auto and self.maxlen is not None:
            want = want[:self.maxlen + self.dropped]
        if self.src.returned != want:
            self.problems.append('read from the source so far: %r, should be %r' % (self.src.returned, want))
        c = self.content()
        if len(want) > 100:                   # only the difference
            w = self.window(want, self.dropped)
            if c != w:
                self.problems.append('the buffer holds %d items (from %r), should be %d (from %r)' % (len(c), c[:1], len(w), w[:1]))
            return
        if c != self.window(want, self.dropped):
            self.problems.append('the buffer holds %r, should be %r' % (c, self.window(want, self.dropped)))
        if not self.sb.is_running:
            self.problems.append('the stream ended')

    def check(self, s):
        self.outcome = self.looks
        out = list(self.problems)
        # never more in the buffer than maxlen: reading must have paused
        if not self.auto and self.maxlen is not None:
            n = 0
            for e in self.src.log:
                if e[0] == 'item':
                    n += 1
                    if n > self.maxlen + self.dropping:
                        out.append('%d items were read with maxlen %d and at most %d drops' % (n, self.maxlen, self.dropping))
        if self.auto or self.maxlen is None:
            for a, b in zip(self.src.log, self.src.log[1:]):
                if a[0] == 'item' and b[0] == 'read' and b[-2] > a[-2] + EPS:
                    out.append('reading paused from %s to %s after an item' % (a[-2], b[-2]))
        return out

    def stuck(self, s):
        return ['%s: %s' % (s.status, s.status_info)]


def scripts(n):
    """All scripts of up to n steps of: item, None, late item."""
    for steps in itertools.product(('i', 'n', 'l'), repeat=n):
        k, out = 0, []
        for x in steps:
            if x == 'n':
                out.append(None)
            else:
                k += 1
                out.append(k if x == 'i' else ('delay', 0.2, k))
        yield out


def run(rep):
    q = ('sleep', 2)
    hs = []
    for sc in scripts(rep.q(4, 5)):
        n = sum(x is not None for x in sc)
        for maxlen in (1, 2, 3, None):
            hs.append(('automatic, maxlen %s, %s' % (maxlen, sc), lambda sc=sc, maxlen=maxlen: Window(
                sc, [('look',), ('refused', 1), ('sleep', 0.4), ('look',), q, ('quiet',), ('refused', 1)], maxlen, True)))
            # manual: drop whatever may be dropped, in all splits
            cap = n if maxlen is None else min(n, maxlen)
            for d in itertools.product(range(0, cap + 1), repeat=2):
                left = n - d[0]
                cap2 = left if maxlen is None else min(left, maxlen)
                if d[1] > cap2 or d == (0, 0) and maxlen is None:
                    continue
                hs.append(('manual, maxlen %s, drops %s, %s' % (maxlen, d, sc), lambda sc=sc, maxlen=maxlen, d=d: Window(
                    sc, [('look',), q, ('quiet',), ('drop', d[0]), ('look',), q, ('quiet',), ('drop', d[1]), ('look',)], maxlen, False)))
    rep.explore_many('histories', hs, bound=rep.q(0, 1), gran='sync')
    hs = []
    for maxlen, drops in itertools.product((1, 2, 3, None), ([1, 1, 1], [1, -0.31, 1], [-0.31, 1, 1, 1], [2, 1], [-1, 1, -1, 1])):
        if maxlen is not None and (drops[0] > maxlen or drops[:2] == [1, 1] and maxlen < 2 or drops == [1, 1, 1] and maxlen < 3 or drops == [2, 1] and maxlen < 3
                                   or drops[1:] == [1, 1, 1] and maxlen < 3):
            continue
        hs.append(('maxlen %s, drops %s' % (maxlen, drops), lambda maxlen=maxlen, drops=drops: Full(
            [1, 2, 3, 4, None, 5, 6], [('look',), ('look',), ('sleep', 0.3), ('look',), ('sleep', 0.3), ('look',)], maxlen, False, dropper=drops)))
    hs += [('automatic, maxlen %s' % m, lambda m=m: Window([1, 2, None, 3, 4], [('look',), ('look',), ('refused', 1), ('sleep', 0.3), ('look',), ('look',)], m, True))
           for m in (1, 2, None)]
    rep.explore_many('looking while it changes', hs, bound=rep.q(1, 2))
    # long streams: no limit means no limit
    many = rep.q(10_050, 30_050)
    hs = [('%d items, maxlen %s, automatic %s' % (many, m, auto), lambda m=m, auto=auto: Window(
        list(range(1, many + 1)), [q, ('quiet',)] + ([] if auto else [('drop', 9_000), q, ('quiet',)]), m, auto))
          for m, auto in ((None, True), (None, False), (10_000, True), (10_049, True), (9_999, True), (10_040, False))]
    rep.explore_many('long streams', hs, bound=0, gran='sync', max_steps=10_000_000, max_lines=100_000_000)


class Full(Window):
    """The dropper starts when the buffer is as full as it gets."""

    def drops(self):
        src = self.src
        m = self.maxlen or 4
        self.s.wait_for(lambda: len(src.returned) >= m, 'full buffer')
        v_sleep(0.01)
        super().drops()
