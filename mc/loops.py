"""Consumers that follow a stream to its end (C10, C11): one schedule harness, judged by two oracles."""
from . import sched
from .env import StreamBuffer, ScriptSource
from .sched import v_sleep


def flat(v):
    return list(v) if isinstance(v, list) else [v]


# options given when the reader is made
MAKING = {'read_size': 'read_size', 'ignoring': 'ignore_no_item_found', 'peeking': 'peek'}


def peeks(kw):
    p = kw.get('peek')
    return kw.get('peeking', False) if p is None else p


class Follow:
    """consumers: list of (kind, kwargs) with kind one of
         'for'    for x in reader          'next'   next(reader) until StopIteration, three times
         'sbfor'  for x in stream_buffer   'sbnext' next(stream_buffer)
         'read'   reader.read(blocking=True, ...) until None, three times
         'again'  a for loop over the reader that is left after every item and entered again
         'mixed'  in turns an item by such a for loop, by next(reader) and by reader.read(ignore_no_item_found=True)
       stop: virtual seconds after which main stops the stream; None: the source ends by itself.
    """
    EPS = 1e-6

    def __init__(self, script, consumers, stop=None, maxlen=10, pre=(), sleep=0.3, interval=0.1, slow=0.0, key_faults=(),
                 auto_drop=True, session=1, ends=3,
                 max_reads=40):
        self.ends = ends
        self.max_reads = max_reads
        self.script, self.consumers, self.stop, self.maxlen, self.pre = script, consumers, stop, maxlen, pre
        self.sleep, self.interval, self.slow, self.key_faults, self.auto_drop = sleep, interval, slow, key_faults, auto_drop
        self.session = session
        self.outcome = None

    def main(self, s):
        self.s = s
        scripts = [[77]] * (self.session - 1) + [list(self.pre) + [('gate', 'g')] + list(self.script)]
        src = self.src = ScriptSource(scripts, s, key_faults=self.key_faults)
        sb = self.sb = StreamBuffer(src, maxlen=self.maxlen, sleep_time_on_read_none_s=self.sleep, auto_drop=self.auto_drop)
        s.region(False)
        for _ in range(self.session - 1):
            sb.start()
            sb.stop()
        sb.start()
        s.wait_for(lambda: src.waiting_gate == 'g', 'source at gate')
        self.base = len([x for x in src.returned if x[1] != self.session])
        src.gates.add('g')
        self.left = len(self.consumers)
        self.got = [[] for _ in self.consumers]      # (what, value, time before, time after, stop called before the call's end?)
        self.stop_called = None                      # time
        self.must = None
        rs = []
        for kind, kw in self.consumers:
            if kind.startswith('sb'):
                rs.append(None)
            else:
                r = sb.mk_reader(**{MAKING[k]: v for k, v in kw.items() if k in MAKING})
                r.set_sleep_time_on_iter_none(self.interval)
                rs.append(r)
        if self.stop is None:
            ths = [s.spawn(lambda i=i: self.consume(i, rs[i]), 'consumer%d' % i) for i in range(1, len(rs))]
            s.region(True)
            self.consume(0, rs[0])
        else:
            ths = [s.spawn(lambda i=i: self.consume(i, rs[i]), 'consumer%d' % i) for i in range(len(rs))]
            s.region(True)
            v_sleep(self.stop)
            self.must = max(self.base, src.completed)
            self.stop_called = s.now
            sb.stop()
        s.join(*ths)
        s.region(False)
        sb.join()
        self.final = sb.mk_reader().range(0, 10 ** 6, peek=True)

    def ended(self):
        """Has the end begun?"""
        if self.stop_called is not None or any(e[0] in ('raise', 'key-fault') for e in self.src.log):
            return True
        r = [x for x in self.src.returned if x[1] == self.session]
        return any(a[0] >= b[0] for a, b in zip(r, r[1:]))

    @staticmethod
    def options(kw, k):
        """The options of the k-th call: those in 'each' take turns."""
        each = kw.get('each')
        return dict({a: b for a, b in kw.items() if a != 'each'}, **(each[k % len(each)] if each else {}))

    def consume(self, i, r):
        self.consume_(i, r)
        self.left -= 1
        if not self.left:
            self.s.region(False)

    def consume_(self, i, r):
        kind, kw = self.consumers[i]
        got = self.got[i]
        now = lambda: self.s.now
        if kind in ('for', 'sbfor'):
            t = now()
            for x in (self.sb if kind == 'sbfor' else r):
                got.append(('item', x, t, now(), self.ended()))
                if self.slow:
                    v_sleep(self.slow)
                t = now()
            got.append(('end', None, t, now(), self.ended()))
        elif kind in ('next', 'sbnext'):
            n = 0
            while n < self.ends:
                t = now()
                try:
                    x = next(r) if kind == 'next' else self.sb() if len(got) % 2 else next(self.sb)       # (calling the stream is the same)
                except StopIteration:
                    got.append(('end', None, t, now(), self.ended()))
                    n += 1
                    if n < self.ends:
                        v_sleep(0.7)
                    continue
                got.append(('none' if x is None else 'item', x, t, now(), self.ended()))
                if x is None:
                    v_sleep(self.interval)
                elif self.slow:
                    v_sleep(self.slow)
        elif kind in ('again', 'mixed'):
            while True:
                t = now()
                how = ('for', 'next', 'read')[len(got) % 3] if kind == 'mixed' else 'for'
                try:
                    if how == 'for':
                        for x in r:
                            break
                        else:
                            raise StopIteration
                    else:
                        x = next(r) if how == 'next' else r.read(ignore_no_item_found=True)
                except StopIteration:
                    got.append(('end', None, t, now(), self.ended()))
                    return
                got.append(('none' if x is None else 'item', x, t, now(), self.ended()))
                if x is None:
                    v_sleep(self.interval)
                elif self.slow:
                    v_sleep(self.slow)
        else:
            n = 0
            while n < self.ends and len(got) < self.max_reads:
                t = now()
                x = r.read(blocking=True, **{k: v for k, v in self.options(kw, len(got)).items() if k not in MAKING})
                got.append(('end' if x is None else 'item', x, t, now(), self.ended()))
                if x is None:
                    n += 1
                    if n < self.ends:
                        v_sleep(0.7)
                elif self.slow:
                    v_sleep(self.slow)

    # ------------------------------------------------------------------ oracles
    def ingested(self):
        """All items of this session that went into the buffer, and how many of them certainly before the end."""
        src = self.src
        items = [x for x in src.returned if x[1] == self.session]
        n = None
        for i, x in enumerate(items):
            if x[0] in self.key_faults or (i and x[0] <= items[i - 1][0]):
                n = i                      # refused by the buffer
                break
        if n is not None:
            items = items[:n]
        must = len(items) if self.must is None else min(len(items), self.must - self.base)
        return items, must

    def delivery(self):
        out = []
        items, must = self.ingested()
        must_items = set(items[:must])
        for i, (kind, kw) in enumerate(self.consumers):
            got = self.got[i]
            who = '%s %r' % (kind, kw)
            ends = [k for k, g in enumerate(got) if g[0] == 'end']
            seq = []
            for k, (what, v, t0, t1, ended) in enumerate(got):
                if what == 'item':
                    opts = self.options(kw, k)
                    if kind == 'read' and peeks(opts):
                        continue                       # timing() knows what it has to be
                    size = opts.get('n', opts.get('read_size', 1))
                    if size > 1 and not (isinstance(v, list) and 1 <= len(v) <= size):
                        out.append('%s: chunk %r' % (who, v))
                        continue
                    if ends and k > ends[0] and set(flat(v)) & must_items:
                        out.append('%s: ended, and later delivered %r' % (who, v))
                    seq += flat(v)
                elif what == 'end' and not ended:
                    out.append('%s: ended after %r although the stream was running' % (who, seq))
            first = seq
            if ends:
                first = []
                for k, g in enumerate(got[:ends[0]]):
                    if g[0] == 'item' and not (kind == 'read' and peeks(self.options(kw, k))):
                        first += flat(g[1])
            if any(a[0] >= b[0] for a, b in zip(seq, seq[1:])) or not set(seq) <= set(items):
                out.append('%s: delivered %r, ingested %r' % (who, seq, items))
            lost = [x for x in items[:must] if x not in first and (self.maxlen is None or len(items) <= self.maxlen or x in self.final)]
            if lost:
                out.append('%s: ended without delivering %r (delivered %r, ingested before the end %r)' % (who, lost, first, items[:must]))
        return out

    def timing(self):
        """For blocking reads: prompt, exact and None only at the end."""
        out = []
        items, must = self.ingested()
        when = {}
        for e in self.src.log:
            if e[0] == 'item':
                when[e[2]] = e[3]
        end = self.stop_called
        for e in self.src.log:
            if e[1] != self.session:
                continue
            if e[0] in ('raise', 'key-fault', 'close') or e[0] == 'item' and e[2] not in items:
                t = e[-2]
                end = t if end is None else min(end, t)
        for i, (kind, kw) in enumerate(self.consumers):
            if kind != 'read':
                continue
            pos = 0
            base = kw
            for k, (what, v, t0, t1, ended) in enumerate(self.got[i]):
                kw = self.options(base, k)
                n = kw.get('n') or kw.get('read_size', 1)
                who = 'read(blocking) %r at %s' % (kw, t0)
                if what == 'item':
                    if self.maxlen is None or len(items) <= self.maxlen:
                        want = items[pos:pos + n]
                        if n > 1 and not (isinstance(v, list) and v and v == want[:len(v)]) or n == 1 and [v] != want[:1]:
                            out.append('%s gave %r, the next items are %r' % (who, v, want))
                            return out
                        nxt = want[0]
                        if t1 > max(t0, when[nxt]) + self.interval + self.EPS:
                            out.append('%s: %r was ingested at %s, returned at %s' % (who, nxt, when[nxt], t1))
                        if n > 1:
                            # every item ingested when the call started is in the list, up to n
                            there = [x for x in want if when[x] < t0 - self.EPS]
                            if len(v) < len(there):
                                out.append('%s gave %r although %r were there before' % (who, v, there))
                    if not peeks(kw):
                        pos += len(flat(v))
                else:
                    if not ended:
                        out.append('%s gave None at %s although the stream was running' % (who, t1))
                    elif t1 > max(t0, end) + self.interval + self.EPS:
                        out.append('%s gave None at %s, the stream ended at %s' % (who, t1, end))
        return out

    def common(self, s):
        self.outcome = [[(g[0], g[1]) for g in got] for got in self.got]
        return []

    def stuck(self, s):
        return ['%s: %s' % (s.status, s.status_info), 'delivered so far: %r' % (self.got,)]
