"""C06: no combination of reader calls, drops and ingestion deadlocks, and everybody can go on afterwards."""
import itertools

from . import ref, sched
from .env import StreamBuffer, ScriptSource, K
from .ref import op


class Calls:
    """readers: list of call lists, one thread each; the source delivers `post` concurrently; afterwards everything works."""

    def __init__(self, readers, cursor=None, pre=(1, 2), post=(3,), maxlen=2, drops=(), auto_drop=True, refused=False):
        self.refused = refused
        self.readers, self.cursor = readers, cursor
        self.pre, self.post, self.maxlen = list(pre), list(post), maxlen
        self.drops, self.auto_drop = drops, auto_drop
        self.outcome = None
        self.results = [[] for _ in readers]

    def main(self, s):
        src = self.src = ScriptSource([self.pre + [('gate', 'g')] + self.post + ([0] if self.refused else [('gate', 'h'), 90])], s,
                                      point_in_read=False)
        sb = self.sb = StreamBuffer(src, maxlen=self.maxlen, sleep_time_on_read_none_s=0.3, auto_drop=self.auto_drop)
        s.region(False)
        sb.start()
        s.wait_for(lambda: src.waiting_gate == 'g' or (not self.auto_drop and len(src.returned) == self.maxlen), 'source at gate')
        rs = [sb.mk_reader() for _ in self.readers]
        for r in rs:
            r.set_sleep_time_on_iter_none(0.2)
            if self.cursor is not None:
                r.last_item = (self.cursor, 1)
        src.gates.add('g')
        ths = []
        if self.drops:
            ths.append(s.spawn(self.dropper, 'dropper'))
        for i in range(1, len(rs)):
            ths.append(s.spawn(lambda i=i: self.reader(i, rs[i]), 'reader%d' % i))
        s.region(True)
        self.reader(0, rs[0])
        s.join(*ths)
        s.region(False)
        if self.refused:          # the last item was refused, which ends the stream
            sb.join()
            self.last = [r.range(-9, 99, peek=True) for r in rs + [sb.mk_reader()]]
            self.last += [r.tail(peek=True) for r in rs]
            if not self.auto_drop:
                sb.drop(1)
            return
        src.gates.add('h')
        if not self.auto_drop and 9 not in self.drops:
            sb.drop(1)
        s.wait_for(src.idle, 'ingestion of everything')
        # everybody can go on: the old readers and a new one see what is there
        self.last = []
        for r in rs + [sb.mk_reader()]:
            self.last.append(r.tail(peek=True))
            self.last.append(r.range(90, 90, peek=True))
        sb.stop()

    def dropper(self):
        for n in self.drops:
            try:
                self.sb.drop(n)
            except IndexError:
                if n < 9:
                    raise

    def reader(self, i, r):
        for o in self.readers[i]:
            if o[0] == 'next':
                res = ('ok', next(r))
            elif o[0] == 'set':
                r.last_item = (o[1][0], 1)
                res = None
            elif o[0] == 'del':
                del r.last_item
                res = None
            elif o[0] == 'make':
                q = self.sb.mk_reader()
                res = (q.is_stopped, q.last_key)
            elif o[0] == 'snext':
                res = ('ok', next(self.sb))
            elif o[0] == 'status':
                res = (self.sb.is_running, self.sb.source_reader_info, self.sb.auto_drop)
            elif o[0] == 'info':
                res = (r.is_stopped, r.last_key, r.last_item, r.source_reader_info)
            else:
                res = ref.call_real(r, o)
            self.results[i].append(res)

    def check(self, s):
        self.outcome = self.results
        w = [t for t in s.threads if t.pyobj is not None]
        if self.refused:
            its = [(k, 1) for k in self.pre + self.post][sum(self.drops):]
            its = its[-self.maxlen:]
            if self.last != [its] * (len(self.readers) + 1) + [its[-1]] * len(self.readers):
                return ['after an item was refused the readers see %r' % (self.last,)]
            return []
        if w[0].exc is not None:
            return ['ingestion ended with %r' % (w[0].exc,)]
        it = (90, 1)
        if self.last != [it, [it]] * (len(self.readers) + 1):
            return ['afterwards the readers see %r' % (self.last,)]
        return []

    def stuck(self, s):
        return ['%s: %s' % (s.status, s.status_info), 'finished calls: %r' % (self.results,)]


def all_calls():
    B = (False, True)
    out = []
    for n, peek, ig, st in itertools.product((1, 2, 3), B, B, B):
        out.append(op('read', n=n, peek=peek, ignore=ig, strict=st))
    for (a, b), new, le, ge, peek, ig in itertools.product(((1, 9), (2, 2), (9, 1), (5, 7)), B, B, B, B, B):
        out.append(op('range', a, b, only_new=new, start_le=le, stop_ge=ge, peek=peek, ignore=ig))
    for peek, ig, new in itertools.product(B, B, B):
        out.append(op('tail', peek=peek, ignore=ig, only_new=new))
    out += [op('head'), op('head', peek=True)]
    # calls that fail with an exception of their own in the middle
    out += [op('range', 'x', 9), op('range', 1, 'x'), op('range', 'x', 'y', only_new=True, start_le=True, stop_ge=True),
            op('range', 1, 9, 0), op('range', 1, 9, -1), op('read', n='x'), op('range', None, None),
            op('range', 'x', 9, only_new=True), op('range', 1, 9, 0, only_new=True, ignore=True)]
    return out


def run(rep):
    calls = all_calls()
    # every single call, from every cursor, against ingestion with eviction
    hs = []
    for cur in (None, 1, 2, 5):
        for c in calls:
            hs.append(('cursor %s, %s' % (cur, ref.show(c)), lambda c=c, cur=cur: Calls([[c]], cur)))
    rep.explore_many('one call', hs, bound=rep.q(2, 3), gran='sync', max_time=30)
    # from an empty buffer
    hs = [(ref.show(c), lambda c=c: Calls([[c]], None, pre=())) for c in calls]
    rep.explore_many('one call, empty buffer', hs, bound=rep.q(2, 3), gran='sync', max_time=30)
    # representative calls in sequence and against each other, with ingestion and drops
    R = [op('read', ignore=True), op('read', n=2, strict=True), op('range', 1, 9, only_new=True, ignore=True),
         op('range', 2, 2, start_le=True, stop_ge=True), op('range', 5, 7), op('range', 'x', 9, only_new=True),
         op('tail', only_new=True), op('head'), op('range', 1, 9, 0), op('next'), op('read', blocking=True), op('set', 2),
         op('del'), op('info'), op('make'), op('snext'), op('status')]
    blk = op('read', blocking=True)
    stays = [op('range', 5, 7), op('range', 'x', 9, only_new=True), op('range', 1, 9, 0), op('head'), op('set', 2), op('del'), op('info'),
             op('make'), op('snext'), op('status')]
    two = [(ref.show(a) + '; ' + ref.show(b), lambda a=a, b=b: Calls([[a, b]], 1))
           for a in R for b in R if b != blk or a in stays]     # a blocking read needs something left to come
    rep.explore_many('two calls in sequence', two, bound=rep.q(2, 3), gran='sync', max_time=30)
    par = [(ref.show(a) + ' | ' + ref.show(b), lambda a=a, b=b: Calls([[a], [b]], 1)) for i, a in enumerate(R) for b in R[i:]]
    rep.explore_many('calls of two readers', par, bound=rep.q(1, 3), gran='sync', max_time=30)
    dr = [(ref.show(a), lambda a=a: Calls([[a]], 1, pre=(1, 2, 3), post=(4,), maxlen=4, drops=(1, 1), auto_drop=False))
          for a in R]
    dr += [(ref.show(a) + ' full', lambda a=a: Calls([[a]], 1, pre=(1, 2, 3), post=(4,), maxlen=3, drops=(1, 1), auto_drop=False))
           for a in R]
    dr += [(ref.show(a) + ' drop too many', lambda a=a: Calls([[a]], 1, pre=(1, 2), post=(4,), maxlen=4, drops=(0, 1), auto_drop=False))
           for a in R]
    # a drop of more than there is, which fails or not
    dr += [(ref.show(a) + ' drop all and more', lambda a=a: Calls([[a]], 1, pre=(1, 2), post=(4,), maxlen=4, drops=(9, 0), auto_drop=False))
           for a in R if a not in (blk, op('snext'))]
    # an append that fails
    dr += [(ref.show(a) + ' append refused', lambda a=a: Calls([[a]], 1, pre=(1, 2), post=(4,), maxlen=4, refused=True)) for a in R]
    dr += [(ref.show(a) + ' append refused, drops', lambda a=a: Calls([[a]], 1, pre=(1, 2, 3), post=(4,), maxlen=5, drops=(1,),
                                                                     auto_drop=False, refused=True)) for a in R]
    rep.explore_many('calls and drops', dr, bound=rep.q(1, 3), gran='sync', max_time=30)
    if rep.thorough:
        three = [(' | '.join(map(ref.show, t)), lambda t=t: Calls([[x] for x in t], 1))
                 for t in itertools.combinations(R[:9], 3)]
        rep.explore_many('calls of three readers', three, bound=2, gran='sync', max_time=30)
        rep.explore_many('one call, line granularity',
                         [('cursor 1, ' + ref.show(c), lambda c=c: Calls([[c]], 1)) for c in calls], bound=2, max_time=30)
