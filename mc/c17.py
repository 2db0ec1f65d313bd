"""C17: mk_stream_buffer wires plain functions to a stream faithfully."""
import itertools

from . import load, sched
from .env import stream2py                                         # noqa: F401
from .sched import real_time, v_sleep, v_time
from stream2py.simply import mk_stream_buffer


class Boom(Exception):
    pass


class Quit(BaseException):
    pass


class Instance:
    _opaque = True

    def __init__(self, n):
        self.n = n

    def __str__(self):
        return 'instance %d' % self.n


STOP = 'stop'     # in a script: the read raises


class Wired:
    def __init__(self, script, body='normal', given=('open', 'close', 'info'), key=None, opts=None, consume=False, faults=()):
        self.script, self.body, self.given, self.key = script, body, given, key
        self.opts = dict(opts or {})
        self.consume, self.faults = consume, faults
        self.outcome = None

    def main(self, s):
        self.s = s
        self.log = []
        self.n = 0
        self.pos = 0
        self.problems = []
        kw = {}
        if 'open' in self.given:
            kw['open_stream'] = self.open
        if 'close' in self.given:
            kw['close_stream'] = self.close
        if 'info' in self.given:
            kw['info'] = self.info
        if self.key == 'first':
            kw['key'] = lambda x: x[0]
        elif self.key == 'negated':
            kw['key'] = lambda x: -x[0]
        elif self.key == 'data':
            kw['key'] = lambda x: x[1]
        self.raised = None
        try:
            with mk_stream_buffer(self.read, **kw, **self.opts) as sb:
                self.log.append(('body', s.now))
                self.inside(sb)
        except (Exception, Quit) as e:
            self.raised = e
        self.log.append(('left', s.now))
        if self.raised is None and 'open' not in self.faults or self.body in ('raises', 'quits', 'stops iterating') and 'open' not in self.faults:
            # the stream stays readable afterwards
            self.after = self.r.range(*self.all(), peek=True)
        v_sleep(40)

    # the functions given
    def inst(self):
        return self.instance if 'open' in self.given else None

    def open(self):
        self.n += 1
        self.pos = 0
        if 'open' in self.faults:
            self.log.append(('open failed', self.s.now))
            raise Boom('open')
        self.instance = Instance(self.n)
        self.log.append(('open', self.s.now))
        return self.instance

    def read(self, inst):
        self.log.append(('read', self.s.now))
        if inst is not self.inst():
            self.problems.append('read got %r' % (inst,))
        if self.pos >= len(self.script):
            return None
        x = self.script[self.pos]
        self.pos += 1
        if x == STOP:
            self.log.append(('failed', self.s.now))
            raise Boom('read')
        return x

    def close(self, inst):
        self.log.append(('close', self.s.now))
        if inst is not self.inst():
            self.problems.append('close got %r' % (inst,))
        if 'close' in self.faults:
            raise Boom('close')

    def info(self, inst):
        if inst is not self.inst():
            self.problems.append('info got %r' % (inst,))
        self.log.append(('info', self.s.now))
        return {'n': self.n}

    # expectations
    def items(self):
        """All items ingested, the stream having had time, without drops."""
        enum = self.opts.get('enumerate_data', True)
        out = []
        for x in self.script:
            if x == STOP:
                break
            if x is None:
                continue
            v = (len(out), x) if enum else x
            k = self.k(v)
            if out and not k > self.k(out[-1]):
                break
            out.append(v)
        return out

    def k(self, v):
        return v[0] if self.key == 'first' else -v[0] if self.key == 'negated' else v[1] if self.key == 'data' else v

    def all(self):
        its = self.items()
        return (self.k(its[0]), self.k(its[-1])) if its else (0, 0)

    def opened_now(self, r):
        """The default info says when the session was opened."""
        t = r.source_reader_info.get('open_time')
        if not isinstance(t, (int, float)) or not any(0 <= now() - t / 1e6 <= 5 for now in (v_time, real_time)):
            self.problems.append('the default info has the open time %r, now it is %r' % (t, v_time()))

    def inside(self, sb):
        s = self.s
        r = self.r = sb.mk_reader()
        want = self.items()
        m = self.opts.get('maxlen', 100)
        manual = self.opts.get('auto_drop', True) is False
        if sb.auto_drop is not (not manual):
            self.problems.append('auto_drop is %r' % (sb.auto_drop,))
        info = r.source_reader_info
        if 'info' in self.given:
            if info != {'n': self.n} or sb.source_reader_info != info:
                self.problems.append('the info is %r' % (info,))
        elif not isinstance(info, dict) or info.get('open_instance') != str(self.inst()):
            self.problems.append('the default info is %r' % (info,))
        else:
            self.opened_now(r)
        if self.body == 'raises at once':
            raise Boom('body')
        if self.consume:
            got = []
            t = 0
            while t < 150 and len(got) < len(want):
                x = next(r, 'end')
                if x == 'end':
                    break
                if x is None:
                    t += 1
                    v_sleep(0.1)
                    continue
                got.append(x)
                if manual:
                    sb.drop()
            if got != want:
                self.problems.append('consumed %r, should be %r' % (got, want))
            v_sleep(1)
            self.window = [] if manual else want if m is None else want[-m:]
        else:
            v_sleep(40)
            self.window = want if m is None else want[:m] if manual else want[-m:]
        if want and r.range(*self.all(), peek=True) != self.window:
            self.problems.append('the buffer holds %r, should be %r' % (r.range(*self.all(), peek=True), self.window))
        if self.body == 'raises':
            raise Boom('body')
        if self.body == 'quits':
            raise Quit('body')
        if self.body == 'stops iterating':
            raise StopIteration('body')
        if self.body == 'restarts':
            sb.start()
            r2 = sb.mk_reader()
            if 'info' not in self.given:
                self.opened_now(r2)
            v_sleep(40)
            self.window = want if m is None else want[:m] if manual else want[-m:]
            if want and r2.range(*self.all(), peek=True) != self.window:
                self.problems.append('after a restart the buffer holds %r, should be %r' % (r2.range(*self.all(), peek=True), self.window))
        if self.body == 'stops':
            sb.stop()

    def check(self, s):
        out = self.problems
        kinds = [e[0] for e in self.log]
        self.outcome = [k for i, k in enumerate(kinds) if i == 0 or kinds[i - 1] != k]
        sessions = 2 if self.body == 'restarts' else 1
        if 'open' in self.faults:
            if not isinstance(self.raised, Boom) or self.raised.args != ('open',):
                out.append('the error of open_stream came out as %r' % (self.raised,))
            if 'read' in kinds or 'close' in kinds or 'body' in kinds:
                out.append('open_stream failed, then: %r' % (kinds,))
            return out
        if self.body.startswith('raises'):
            if not isinstance(self.raised, Boom) or self.raised.args != ('body',):
                out.append('the error of the body came out as %r' % (self.raised,))
        elif self.body in ('quits', 'stops iterating'):
            if not isinstance(self.raised, Quit if self.body == 'quits' else StopIteration) or self.raised.args != ('body',):
                out.append('the error of the body came out as %r' % (self.raised,))
        elif self.raised is not None:
            out.append('the context raised %r' % (self.raised,))
        if 'open' in self.given:
            if kinds.count('open') != sessions or kinds.index('open') > kinds.index('body'):
                out.append('opened %d times: %r' % (kinds.count('open'), self.outcome))
            if 'read' in kinds and kinds.index('read') < kinds.index('open'):
                out.append('read before open')
        if 'close' in self.given:
            if kinds.count('close') != sessions or kinds.index('close') > kinds.index('left'):
                out.append('closed %d times: %r' % (kinds.count('close'), self.outcome))
        last = kinds.index('left')
        if 'read' in kinds[last:]:
            out.append('read after the context was left')
        # waits
        if not (self.opts.get('auto_drop', True) is False and self.opts.get('maxlen', 100) is not None):
            w = self.opts.get('sleep_time_on_read_none_seconds')
            w = 0.3 if w is None else w
            ev = [e for e in self.log if e[0] in ('read', 'failed')]
            n = 0
            for a, b in zip(ev, ev[1:]):
                if a[0] == 'read' and b[0] == 'read' and self.body not in ('restarts', 'stops') and a[1] > 0 and \
                        n >= len(self.script) and abs(b[1] - a[1] - w) > 1e-6:
                    out.append('read at %s and next at %s, to wait is %s' % (a[1], b[1], w))
                    break
                n += 1
        return out

    def stuck(self, s):
        return ['%s: %s' % (s.status, s.status_info)] + self.problems


def run(rep):
    hs = []
    for n in range(0, rep.q(4, 6)):
        for sc in itertools.product((0, None, ''), repeat=n):        # falsy data is data
            for consume in (False, True):
                hs.append(('enumerated %r%s' % (sc, ', consumed' if consume else ''), lambda sc=sc, consume=consume: Wired(sc, consume=consume, key='first')))
        k = 0
        for marks in itertools.product((0, 1), repeat=n):
            sc = [j if m else None for j, m in enumerate(marks)]
            for consume in (False, True):
                for extra in ((), (STOP,)):
                    hs.append(('plain %r%s' % (sc, ', consumed' if consume else ''), lambda sc=sc, consume=consume, extra=extra: Wired(
                        tuple(sc) + extra, consume=consume, opts=dict(enumerate_data=False))))
                    hs.append(('enumerated, no key %r%s' % (sc, ', consumed' if consume else ''), lambda sc=sc, consume=consume, extra=extra: Wired(
                        tuple(sc) + extra, consume=consume)))
    rep.explore_many('every script of reads', hs, bound=0, gran='sync')
    hs = []
    for r in range(4):
        for given in itertools.combinations(('open', 'close', 'info'), r):
            for body, key, enum in itertools.product(('normal', 'raises', 'raises at once', 'restarts', 'stops', 'quits', 'stops iterating'), ('first', None, 'negated', 'data'), (True, False)):
                if not enum and key is not None or body == 'restarts' and 'open' not in given:
                    continue
                sc = (3, None, 5, 8, None, 9)
                hs.append(('given %r, key %r, enumerate %r, body %s' % (given, key, enum, body),
                           lambda given=given, body=body, key=key, enum=enum, sc=sc: Wired(sc, body, given, key, dict(enumerate_data=enum))))
    for maxlen, auto, sl, consume in itertools.product((1, 2, 100, None), (True, False), (None, 0.05, 1, 7), (False, True)):
        opts = dict(maxlen=maxlen, auto_drop=auto, sleep_time_on_read_none_seconds=sl)
        if sl == 7 and consume:
            continue
        for body in ('normal', 'raises', 'restarts', 'stops'):
            hs.append(('%r%s, body %s' % (opts, ', consumed' if consume else '', body), lambda opts=opts, consume=consume, body=body: Wired(
                (3, None, 5, 8, None, 9), body, key='first', opts=opts, consume=consume and not (opts['auto_drop'] and opts['maxlen'] in (1, 2)))))
    for body, faults, sc in itertools.product(('normal', 'raises', 'raises at once', 'stops', 'quits', 'stops iterating'), (('open',), ('close',), ()), ((3, STOP), (3, None, 4, STOP), (STOP,), ())):
        hs.append(('faults %r, reads %r, body %s' % (faults, sc, body), lambda body=body, faults=faults, sc=sc: Wired(sc, body, faults=faults)))
    rep.explore_many('options and bodies', hs, bound=rep.q(1, 2), gran='sync')
    for n, f in {'plain': lambda: Wired((1, None, 2), consume=True, opts=dict(enumerate_data=False)),
                 'manual': lambda: Wired((1, 2, 3), consume=True, opts=dict(maxlen=1, auto_drop=False)),
                 'raises': lambda: Wired((1, 2), 'raises at once')}.items():
        rep.explore('line granularity, ' + n, f, bound=rep.q(1, 2))
