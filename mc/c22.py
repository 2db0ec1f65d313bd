"""C22: polling honours the configured waits and reacts to stop promptly."""
import itertools

from . import sched
from .env import ScriptSource, StreamBuffer, StreamScript
from .sched import v_sleep

EPS = 1e-6
DEFAULT = 0.3
ZERO = 0.004          # what a sleep(0) takes here


class Base:
    outcome = None

    def stuck(self, s):
        return ['%s: %s' % (s.status, s.status_info)]

    def source(self, s, script, sleep, kind):
        cls = {'reader': ScriptSource, 'stream': StreamScript}[kind]
        return cls([script], s, sleep=sleep)


def make(src, explicit, how, maxlen=100):
    kw = {} if explicit is None else {'sleep_time_on_read_none_s': explicit}
    if how == 'method':
        return src.stream_buffer(maxlen, **kw)
    if how == 'none given':
        return StreamBuffer(src, maxlen=maxlen, sleep_time_on_read_none_s=explicit)
    return StreamBuffer(src, maxlen=maxlen, **kw)


class Waits(Base):
    """The times of all reads of a script that ends at a gate, over two sessions."""

    def __init__(self, script, explicit, own, how, kind, sessions):
        self.script, self.explicit, self.own, self.how, self.kind, self.sessions = script, explicit, own, how, kind, sessions

    def main(self, s):
        src = self.src = self.source(s, list(self.script) + [('gate', 'end')], self.own, self.kind)
        sb = make(src, self.explicit, self.how)
        for k in range(self.sessions):
            src.gates.clear()
            sb.start()
            s.wait_for(lambda: src.waiting_gate == 'end', 'source at gate')
            th = s.spawn(lambda: (v_sleep(0.05), src.gates.add('end')), 'opener')
            sb.stop()
            s.join(th)
            v_sleep(1)

    def check(self, s):
        wait = self.explicit if self.explicit is not None else self.own if self.own is not None else DEFAULT
        out = []
        for k in range(self.sessions):
            t = [e[-2] for e in self.src.log if e[0] == 'open' and e[1] == k + 1][0]
            want = []
            for step in self.script:
                want.append(t)
                while isinstance(step, tuple) and step[0] == 'delay':
                    t += step[1]
                    step = step[2]
                if step is None:
                    t += wait
            want.append(t)
            got = [e[-2] for e in self.src.log if e[0] == 'read' and e[1] == k + 1]
            got = got[:len(want)]
            if len(got) != len(want) or any(abs(a - b) > EPS for a, b in zip(got, want)):
                out.append('reads at %r, expected at %r (session %d, explicit %r, source %r)' % (got, want, k + 1, self.explicit, self.own))
        self.outcome = [e[-2] for e in self.src.log if e[0] == 'read']
        return out


class Stops(Base):
    """A stop while the stream waits, or is full, or reads on."""

    def __init__(self, script, wait, when, own, restart, full=False):
        self.script, self.wait, self.when, self.own, self.restart, self.full = script, wait, when, own, restart, full

    def main(self, s):
        src = self.src = self.source(s, self.script, self.wait if self.own else None, 'reader')
        sb = StreamBuffer(src, maxlen=1 if self.full else 10, sleep_time_on_read_none_s=None if self.own else self.wait, auto_drop=not self.full)
        s.region(False)
        sb.start()
        r = sb.mk_reader()
        v_sleep(self.when)
        s.region(True)
        self.called = s.now
        if self.restart:
            sb.start()
        else:
            sb.stop()
        self.t1 = s.now
        s.region(False)
        self.open = src.is_open
        self.stopped = r.is_stopped
        if self.restart:
            self.again = sb.is_running
            sb.stop()
        sb.join()
        self.closed = [e[-2] for e in src.log if e[0] == 'closed' and e[1] == 1]
        self.joined = s.now

    def check(self, s):
        out = []
        # a read in progress has to end first
        busy = self.called
        for e, f in zip(self.src.log, self.src.log[1:] + [None]):
            if e[0] == 'read' and e[1] == 1 and e[-2] <= self.called + EPS:
                d = next((x[-2] for x in self.src.log[self.src.log.index(e) + 1:] if x[0] in ('item', 'none', 'none-end')), None)
                busy = max(busy, d if d is not None else busy)
        if not self.closed or self.closed[0] > busy + 0.2:
            out.append('%s at %s with a polling interval of %s: closed at %r, a read was in progress until %s' % (
                'restart' if self.restart else 'stop', self.called, self.wait, self.closed, busy))
        if self.t1 > max(busy, self.called + 1) + 1.1:
            out.append('%s called at %s took until %s' % ('restart' if self.restart else 'stop', self.called, self.t1))
        if not self.stopped:
            out.append('the old reader does not report stopped')
        if self.restart and not self.again:
            out.append('not running after the restart')
        if not self.restart and self.open and busy < self.called + 1 - EPS:
            out.append('the source is open after stop')
        if self.joined > self.t1 + 2.1 + (busy - self.called):
            out.append('the thread ended at %s, stopped at %s' % (self.joined, self.t1))
        self.outcome = (self.closed, self.t1)
        return out


class Consumer(Base):
    """Consumers with their own intervals wait for items that come at given times."""

    def __init__(self, times, consumers):
        self.times, self.consumers = times, consumers

    def main(self, s):
        script, t = [], 0
        for i, x in enumerate(self.times):
            script.append(('delay', x - t, 10 + i))
            t = x
        src = self.src = self.source(s, script + [('gate', 'end')], None, 'reader')
        sb = StreamBuffer(src)
        s.region(False)
        s.zero_sleep = ZERO
        sb.start()
        self.t0 = s.now
        self.got = [[] for _ in self.consumers]
        rs = []
        for kind, iv in self.consumers:
            r = None if kind == 'sbfor' else sb.mk_reader()
            if r is not None and iv is not None:
                r.set_sleep_time_on_iter_none(iv)
            rs.append(r)
        ths = [s.spawn(lambda i=i: self.consume(i, rs[i], sb), 'consumer%d' % i) for i in range(len(rs))]
        s.join(*ths)
        src.gates.add('end')
        sb.stop()

    def consume(self, i, r, sb):
        kind, iv = self.consumers[i]
        n = len(self.times)
        if kind == 'read':
            for _ in range(n):
                x = r.read(blocking=True)
                self.got[i].append((x, self.s().now))
        else:
            for x in (sb if kind == 'sbfor' else r):
                self.got[i].append((x, self.s().now))
                if len(self.got[i]) == n:
                    break

    @staticmethod
    def s():
        return sched.ACTIVE

    def check(self, s):
        out = []
        for (kind, iv), got in zip(self.consumers, self.got):
            iv = 0.1 if iv is None else iv or ZERO
            t = self.t0
            for k, (x, at) in enumerate(got):
                due = self.t0 + self.times[k]
                polls = (at - t) / iv
                if x != (10 + k, 1) or abs(polls - round(polls)) * iv > EPS or not max(due, t) - EPS <= at <= max(due, t) + (iv + EPS if due > t - EPS else EPS):
                    out.append('%s with interval %s: item %d came at %s, delivered %r at %s, polls at %s + k * %s' % (kind, iv, k, due, x, at, t, iv))
                    break
                t = at
        self.outcome = self.got
        return out


def run(rep):
    n = rep.q(4, 6)
    scripts = []
    for k in range(1, n):
        for sc in itertools.product((1, None, ('delay', 0.7, None), ('delay', 0.2, 1)), repeat=k):
            keys = itertools.count(1)
            scripts.append([next(keys) if x == 1 else ('delay', 0.2, next(keys)) if x == ('delay', 0.2, 1) else x for x in sc])
    hs = []
    settings = [(e, o) for e in (None, 0, 0.05, 1, 7.5) for o in (None, 0, 0.125, 2)]
    for sc in scripts:
        short = len(sc) <= 2
        for e, o in settings if len(sc) <= 3 or rep.thorough else settings[:6] + [(0, 2), (1, 0.125)]:
            for how, kind in (('plain', 'reader'), ('none given', 'reader'), ('method', 'reader'), ('plain', 'stream'), ('none given', 'stream')) if short else (('plain', 'reader'),):
                    hs.append(('%s, explicit %s, source %s, %s, %s' % (sc, e, o, how, kind),
                               lambda sc=sc, e=e, o=o, how=how, kind=kind, short=short: Waits(sc, e, o, how, kind, 2 if short else 1)))
    for sc in ([None] * 60 + [1, None, 2], [None] * 12 + [1] + [None] * 30 + [2, 3] + [None] * 3, [('delay', 0.7, None)] * 40, list(range(1, 150)) + [None] * 20):
        for e, o in settings:
            hs.append(('%d reads %s, explicit %s, source %s' % (len(sc), sc[:1], e, o), lambda sc=sc, e=e, o=o: Waits(sc, e, o, 'plain', 'reader', 1)))
    for sc in ([None, None, None], [1, None, 2, None, None]):
        for e, o in itertools.product((None, 1e-4, 59, 61.5, 600, 7200.0, 10 ** 6), (None, 1e-4, 59, 61.5, 600, 7200.0, 10 ** 6)):
            for how, kind in (('plain', 'reader'), ('method', 'reader'), ('none given', 'stream')):
                hs.append(('%s, explicit %s, source %s, %s, %s' % (sc, e, o, how, kind), lambda sc=sc, e=e, o=o, how=how, kind=kind: Waits(sc, e, o, how, kind, 1)))
    rep.explore_many('times of all reads', hs, bound=0, gran='sync', max_time=10 ** 7)
    hs = []
    for n_, sc in {'none': [], 'data, then none': [1, 2, 3], 'slow reads': [('delay', 0.6, 1), ('delay', 0.6, 2), ('delay', 0.6, None)],
                   'none, then slow': [None, ('delay', 3, 1)], 'steady': [('delay', 0.25, k) for k in range(1, 30)]}.items():
        for w in (0.01, 0.3, 1, 5, 3600):
            for when in (0, 0.1, 0.45, 3.7):
                for own in (False, True):
                    for restart in (False, True):
                        hs.append(('%s, interval %s, %s at %s, %s' % (n_, w, 'restart' if restart else 'stop', when, 'of the source' if own else 'explicit'),
                                   lambda sc=sc, w=w, when=when, own=own, restart=restart: Stops(sc, w, when, own, restart)))
    for w in (0.3, 5, 3600):
        for when in (0, 0.45, 3.7):
            hs.append(('full, interval %s, stop at %s' % (w, when), lambda w=w, when=when: Stops([1, 2, 3], w, when, False, False, full=True)))
    rep.explore_many('stop', hs, bound=rep.q(1, 2), gran='sync', max_time=10_000)
    hs = []
    times = [(0.05,), (0.25, 0.26), (0.55, 2.31), (1.0, 1.05, 1.1), (3.33,), (0.0, 0.0, 7.01), (63.21, 63.31)]
    for ts in times:
        for cs in [[(k, iv)] for k in ('for', 'read') for iv in (None, 0, 0.02, 0.35, 1, 2.5, 100)] + [[('sbfor', None)]] + \
                [[('for', 0.35), ('read', 1)], [('read', 2.5), ('read', 0.02)], [('for', 0), ('read', 0.35)], [('for', 0.35), ('for', None), ('sbfor', None)]]:
            if ts[0] > 60 and any(iv is not None and iv < 0.1 for _, iv in cs):
                continue           # more polls than the horizon
            hs.append(('items at %s, %s' % (ts, cs), lambda ts=ts, cs=cs: Consumer(ts, cs)))
    rep.explore_many('waiting consumers', hs, bound=rep.q(0, 1), gran='sync', max_time=10_000)
