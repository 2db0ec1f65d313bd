"""C05: reader calls are atomic with respect to concurrent ingestion."""
from . import ref, sched
from .env import StreamBuffer, ScriptSource, K
from .explore import Explorer
from .ref import op


class Snapshot:
    """main thread: drops; readers: scripts of calls; source: items behind a gate."""

    def __init__(self, pre, post, maxlen, readers, drops=(), auto_drop=True, own_points=True):
        self.pre, self.post, self.maxlen = pre, post, maxlen
        self.readers = readers
        self.drops = drops
        self.auto_drop = auto_drop
        self.calls = []
        self.outcome = None

    def main(self, s):
        self.s = s
        src = self.src = ScriptSource([list(self.pre) + [('gate', 'g')] + list(self.post)], s)
        sb = self.sb = StreamBuffer(src, maxlen=self.maxlen, sleep_time_on_read_none_s=0.3, auto_drop=self.auto_drop)
        s.region(False)
        sb.start()
        s.wait_for(lambda: src.waiting_gate == 'g', 'source at gate')
        self.d_lo = self.d_hi = 0
        rs = [sb.mk_reader() for _ in self.readers]
        ths = []
        src.gates.add('g')
        if self.drops:
            ths.append(s.spawn(self.dropper, 'dropper'))
        for i, r in enumerate(rs[1:], 1):
            ths.append(s.spawn(lambda i=i, r=r: self.reader(i, r), 'reader%d' % i))
        s.region(True)
        self.reader(0, rs[0])
        s.region(True)
        s.join(*ths)
        s.region(False)
        s.wait_for(src.idle, 'source idle') if self.auto_drop else None
        sb.stop()

    def dropper(self):
        for n in self.drops:
            self.d_hi += n
            self.sb.drop(n)
            self.d_lo = self.d_hi

    def reader(self, i, r):
        src = self.src
        for o in self.readers[i]:
            lo = (src.completed, self.d_lo)
            before = r.last_item
            res = ref.call_real(r, o)
            hi = (len(src.returned), self.d_hi)
            self.calls.append((i, o, lo, hi, before, res, r.last_item, r.last_key))

    def content(self, a, d):
        if a < d:
            return None
        items = self.src.returned[:a]
        if self.auto_drop:
            return items if self.maxlen is None else items[-self.maxlen:]
        return items[d:]

    def check(self, s):
        out = []
        poss = {}
        self.outcome = [(i, ref.show(o), r) for i, o, _, _, _, r, _, _ in self.calls]
        for i, o, lo, hi, before, res, after, after_key in self.calls:
            prev = poss.get(i, {(0, 0)})
            nxt = set()
            seen = []
            for a in range(lo[0], hi[0] + 1):
                for d in range(lo[1], hi[1] + 1):
                    if not any(pa <= a and pd <= d for pa, pd in prev):
                        continue
                    c = self.content(a, d)
                    if c is None:
                        continue
                    allowed, cur = ref.call_ref(c, before, K, o)
                    seen.append((c, allowed))
                    if res in allowed and after == cur and after_key == (None if cur is None else K(cur)):
                        nxt.add((a, d))
            if not nxt:
                out.append('reader %d: %s from cursor %r gave %r, cursor then %r; possible buffer contents and results: %r'
                           % (i, ref.show(o), before, res, after, seen))
                nxt = {lo}
            poss[i] = nxt
        if s.threads[1].exc is not None:
            out.append('ingestion ended with %r' % (s.threads[1].exc,))
        return out


def run(rep):
    R = op
    evict = {   # 2 items there, 2 more arrive, each evicting the oldest
        'read-read': [R('read', ignore=True), R('read', ignore=True)],
        'readn': [R('read', n=2, ignore=True), R('read', n=2, ignore=True)],
        'readn-strict': [R('read', n=2, strict=True, ignore=True), R('read', n=3, strict=True)],
        'range': [R('range', 1, 9, ignore=True), R('range', 2, 9, only_new=True, ignore=True)],
        'range-le-ge': [R('range', 2, 3, start_le=True, stop_ge=True, ignore=True),
                        R('range', 0, 4, stop_ge=True, peek=True, ignore=True)],
        'range-step': [R('range', 0, 9, 2), R('range', 2, 4, 2, start_le=True, ignore=True)],
        'tail-head': [R('tail', ignore=True), R('head'), R('tail', only_new=True, ignore=True)],
        'new': [R('read'), R('range', 0, 9, only_new=True, ignore=True), R('tail', only_new=True, ignore=True)],
        'peek': [R('read', n=2, peek=True), R('tail', peek=True), R('head', peek=True), R('read', peek=True)],
    }
    b = rep.q(2, 3)
    for n, sc in evict.items():
        rep.explore('evict/' + n, lambda sc=sc: Snapshot([1, 2], [3, 4], 2, [sc]), bound=b)
    # the whole buffer turns over within a call
    turn = {'range-ge': [R('range', 0, 1, stop_ge=True, peek=True), R('range', 1, 4, stop_ge=True, ignore=True)],
            'range-le': [R('range', 3, 9, start_le=True, peek=True), R('range', 3, 4, start_le=True, stop_ge=True, ignore=True)],
            'range-new': [R('read'), R('range', 0, 1, only_new=True, stop_ge=True, ignore=True, peek=True),
                          R('range', 2, 9, 2, only_new=True, start_le=True, ignore=True)],
            'read': [R('read', n=2), R('read', ignore=True), R('read', n=2, strict=True, ignore=True)],
            'ends': [R('tail'), R('head', peek=True), R('tail', only_new=True, ignore=True), R('head')]}
    for n, sc in turn.items():
        rep.explore('turnover/' + n, lambda sc=sc: Snapshot([2], [5, 8], 1, [sc]), bound=b)
    for n in ('range-ge', 'range-le'):
        rep.explore('turnover of two/' + n, lambda sc=turn[n]: Snapshot([1, 2], [5, 8], 2, [sc]), bound=b)
    # from the empty buffer
    for n, sc in {'empty': [R('tail', ignore=True), R('read', n=2, ignore=True), R('range', 0, 9, ignore=True)],
                  'empty2': [R('head'), R('tail', only_new=True, ignore=True), R('range', 0, 9, stop_ge=True, ignore=True)],
                  }.items():
        rep.explore('fill/' + n, lambda sc=sc: Snapshot([], [1, 2, 3], 2, [sc]), bound=b)
    # manual drops from a third thread, buffer full or not
    for n, sc in {'read': [R('read', ignore=True), R('read', n=2, ignore=True)],
                  'range': [R('range', 1, 9, ignore=True), R('tail', ignore=True)],
                  'head': [R('head'), R('range', 0, 9, only_new=True, ignore=True)]}.items():
        rep.explore('drop/' + n, lambda sc=sc: Snapshot([1, 2, 3], [4], 4, [sc], drops=(1, 2), auto_drop=False),
                    bound=rep.q(1, 2))
    # two readers at once
    for n, scs in {'reads': [[R('read', ignore=True), R('read', n=2, ignore=True)], [R('read', n=2, ignore=True)]],
                   'mixed': [[R('range', 0, 9, ignore=True), R('tail', ignore=True)],
                             [R('head'), R('range', 2, 3, start_le=True, stop_ge=True, ignore=True)]]}.items():
        rep.explore('two/' + n, lambda scs=scs: Snapshot([1, 2], [3], 2, scs), bound=rep.q(1, 2))
    if rep.thorough:
        for n, sc in evict.items():
            rep.explore('evict-instr/' + n, lambda sc=sc: Snapshot([1, 2], [3, 4], 2, [sc]), bound=2, gran='instr')
