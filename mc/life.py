"""Life-cycle harness: scripted threads operate one StreamBuffer over a ScriptSource; everything goes into one event log.

Operations: ('start',) ('stop',) ('enter',) ('exit',) ('sleep', dt) ('gate', g) ('at', g): wait until the source waits at gate g;
('idle',): wait until the script is used up; ('mk', r[, kwargs]) ('attach', r) ('read', r) ('drain', r) ('all', r) ('stopped', r)
('same', r, q) ('info',) ('rinfo', r) ('running',) ('next',) ('drop', n) ('join',) ('region', bool)
"""
from . import ref, sched
from .env import StreamBuffer, ScriptSource, BufferReader
from .sched import v_sleep

EPS = 1e-6


class Quit(BaseException):
    pass


class Call:
    def __init__(self, thread, op, at, t0):
        self.thread, self.op, self.at, self.t0 = thread, op, at, t0
        self.end = self.t1 = self.res = self.value = None

    def __repr__(self):
        return '%s=%r' % (' '.join(map(str, self.op)), self.res)


class Life:
    def __init__(self, sessions, threads, *, maxlen=10, sleep=0.3, auto_drop=True, finish=True, other=None, region=True, src=None):
        self.sessions, self.threads = sessions, threads
        self.maxlen, self.sleep, self.auto_drop, self.finish, self.other = maxlen, sleep, auto_drop, finish, other
        self.start_region = region
        self.src_kw = src or {}
        self.outcome = None
        self.calls = []
        self.readers = {}

    def main(self, s):
        self.s = s
        src = self.src = ScriptSource(self.sessions, s, **self.src_kw)
        self.sb = self.make(src)
        s.region(False)
        self.prepare()
        ths = [s.spawn(lambda i=i: self.perform(i), 'user%d' % i) for i in range(1, len(self.threads))]
        s.region(self.start_region)
        self.perform(0)
        s.join(*ths)
        s.region(False)
        if self.finish:
            self.call(0, ('stop',))
            v_sleep(60)
            self.at_end()

    def make(self, src):
        return StreamBuffer(src, maxlen=self.maxlen, sleep_time_on_read_none_s=self.sleep, auto_drop=self.auto_drop)

    def prepare(self):
        pass

    def at_end(self):
        pass

    def perform(self, i):
        for o in self.threads[i]:
            self.call(i, o)

    def call(self, i, o):
        c = self.begin(i, o)
        try:
            v = self.do(o)
        except Exception as e:
            return self.finish_call(c, None, e)
        return self.finish_call(c, v)

    def begin(self, i, o):
        s, src = self.s, self.src
        c = Call(i, o, len(src.log), s.now)
        self.calls.append(c)
        src.log.append(('op', src.session, c, round(s.now, 6), s.current.name))
        return c

    def finish_call(self, c, value, e=None):
        s, src = self.s, self.src
        c.value = value if e is None else e
        c.res = ('raise', type(e).__name__) if e is not None else 'ok' if value is None else ('ok', value)
        src.log.append(('op-end', src.session, c, round(s.now, 6), s.current.name))
        c.end, c.t1 = len(src.log), s.now
        return c

    def do(self, o):
        s, sb, src = self.s, self.sb, self.src
        k, a = o[0], o[1:]
        if k == 'start':
            sb.start()
        elif k == 'stop':
            sb.stop()
        elif k == 'enter':
            sb.__enter__()
        elif k == 'exit':
            sb.__exit__(None, None, None)
        elif k == 'with':                     # a with block: body operations
            c = self.begin(0, ('enter',))
            try:
                with sb:
                    self.finish_call(c, None)
                    for x in a:
                        self.call(0, x)
                    c = self.begin(0, ('exit',))
                self.finish_call(c, None)
            except Exception as e:
                if c.end is None:
                    self.finish_call(c, None, e)
                raise
        elif k == 'broken':                   # a with block whose body raises in the end
            try:
                with sb:
                    for x in a[1:]:
                        self.call(0, x)
                    c = self.begin(0, ('exit',))
                    raise a[0]('body')
            except a[0] as e:
                self.finish_call(c, None if e.args == ('body',) else repr(e))
            else:
                self.finish_call(c, 'the error of the body was lost')
        elif k == 'sleep':
            v_sleep(a[0])
        elif k == 'gate':
            src.gates.add(a[0])
        elif k == 'at':
            s.wait_for(lambda: src.waiting_gate == a[0], 'source at gate')
        elif k == 'idle':
            s.wait_for(src.idle, 'source idle')
        elif k == 'mk':
            self.readers[a[0]] = sb.mk_reader(**(dict(a[1]) if len(a) > 1 else {}))
        elif k == 'attach':
            sb.attach_reader(self.readers[a[0]])
        elif k == 'read':
            return self.readers[a[0]].read(ignore_no_item_found=True)
        elif k == 'drain':
            out = []
            r = self.readers[a[0]]
            while True:
                x = r.read(ignore_no_item_found=True)
                if x is None:
                    return out
                out.append(x)
        elif k == 'all':
            return self.readers[a[0]].range(-1, 10 ** 6, peek=True)
        elif k == 'stopped':
            return self.readers[a[0]].is_stopped
        elif k == 'same':
            return self.readers[a[0]].is_same_buffer(self.readers[a[1]])
        elif k == 'info':
            return sb.source_reader_info
        elif k == 'rinfo':
            return self.readers[a[0]].source_reader_info
        elif k == 'running':
            return sb.is_running
        elif k == 'next':
            return next(sb)
        elif k == 'drop':
            sb.drop(a[0])
        elif k == 'join':
            sb.join()
        elif k == 'region':
            s.region(a[0])
        else:
            raise AssertionError(o)

    # ------------------------------------------------------------------ monitors
    def discipline(self, grace=True, closed_at_end=True):
        """C12: open / read / close in order, no overlap; when stop returns the source is closed and stays so."""
        out = []
        is_open = opened = False
        reading = 0
        session = 0
        for n, e in enumerate(self.src.log):
            kind, t, who = e[0], e[-2], e[-1]
            if kind == 'open-enter':
                if is_open:
                    out.append('open of session %d at %s by %s while session %d is open' % (e[1], t, who, session))
                session = e[1]
            elif kind == 'open':
                is_open = True
            elif kind == 'read':
                if e[2]:
                    out.append('read by %s at %s while another read is in progress' % (who, t))
                if not is_open:
                    out.append('read by %s at %s while not open' % (who, t))
            elif kind == 'close':
                if e[2]:
                    out.append('close by %s at %s while a read is in progress' % (who, t))
                if not is_open:
                    out.append('close by %s at %s while not open' % (who, t))
                is_open = False
            if len(out) > 3:
                break
        if closed_at_end and is_open:
            out.append('session %d was never closed' % session)
        if grace:
            out += self.stops()
        return out

    def stops(self):
        out = []
        log = self.src.log
        starts = [c for c in self.calls if c.op[0] in ('start', 'enter')]
        for c in self.calls:
            if c.op[0] not in ('stop', 'exit') or c.end is None:
                continue
            if any(x.at < c.end and (x.end is None or x.end > c.at) for x in starts):
                continue                     # a start overlaps: which came first is open
            if c.res != 'ok':
                if any(x.at < c.at for x in starts):
                    out.append('stop at %s: %r' % (c.t0, c.res))
                continue
            begun = [i for i in range(c.at) if log[i][0] == 'read']
            # a read in progress during the stop, how long does it take?
            last_read = begun[-1] if begun else None
            long = False
            is_open = False
            for i in range(c.end):
                k = log[i][0]
                if k == 'open':
                    is_open = True
                elif k == 'close':
                    is_open = False
            reads = [i for i in range(c.end) if log[i][0] == 'read']
            if reads and is_open:
                # duration of the last read: until the next event of its thread
                i = reads[-1]
                j = next((j for j in range(i + 1, len(log)) if log[j][-1] == log[i][-1] and log[j][0] in ('item', 'none', 'none-end', 'raise')), None)
                long = j is None or log[j][-2] >= c.t0 + 1 - EPS
            if is_open and not long:
                out.append('when stop (called at %s) returned at %s the source was still open' % (c.t0, c.t1))
            if not is_open:
                for j in range(c.end, len(log)):
                    if log[j][0] in ('open-enter',) or log[j][0] == 'op' and log[j][2].op[0] in ('start', 'enter'):
                        break
                    if log[j][0] in ('read', 'open'):
                        out.append('%s at %s after stop returned at %s' % (log[j][0], log[j][-2], c.t1))
                        break
        return out

    def stuck(self, s):
        return ['%s: %s' % (s.status, s.status_info), 'calls: %r' % (self.calls,)]

    def summary(self):
        return [repr(c) for c in self.calls if c.op[0] not in ('sleep', 'gate', 'at', 'idle', 'region')] + \
            [e[0] for e in self.src.log if e[0] in ('open', 'close', 'item', 'raise')]
