"""C10: iteration delivers everything that was ingested before the stream ended, then ends."""
from .env import ScriptSource, StreamBuffer
from .loops import Follow
from .sched import v_sleep


class Iterate(Follow):
    def check(self, s):
        return self.common(s) + self.delivery()


F, N, SF, SN = ('for', {}), ('next', {}), ('sbfor', {}), ('sbnext', {})
F2, N2 = ('for', {'read_size': 2}), ('next', {'read_size': 2})
A, M, M2 = ('again', {}), ('mixed', {}), ('mixed', {'read_size': 2})
END = ('raise', 'end')


class Long:
    """A stream of n items, pausing after every so many, iterated by k consumers in their own threads: one schedule, many items."""
    outcome = None

    def __init__(self, n, k, every, how, maxlen):
        self.n, self.k, self.every, self.how, self.maxlen = n, k, every, how, maxlen

    def main(self, s):
        s.region(False)
        sc = []
        for i in range(1, self.n + 1):
            sc.append(i)
            if i % self.every == 0:
                sc.append(('delay', 0.37, None) if i % 2 else None)
        src = ScriptSource([sc + [END]], s, point_in_read=False)
        sb = StreamBuffer(src, maxlen=self.maxlen)
        self.problems = []
        want = list(range(1, self.n + 1))
        with sb:
            def consume(j):
                how = self.how if self.how != 'all' else ('for', 'next', 'chunks', 'wait', 'stream')[j % 5]
                got = []
                r = sb.mk_reader(**({'read_size': 7} if how == 'chunks' else {}))
                if how == 'for':
                    got += [x[0] for x in r]
                elif how == 'stream':
                    got += [x[0] for x in sb]
                elif how == 'chunks':
                    for xs in r:
                        got += [x[0] for x in xs]
                elif how == 'wait':
                    while (x := r.read(blocking=True)) is not None:
                        got.append(x[0])
                else:
                    while True:
                        try:
                            x = next(r)
                        except StopIteration:
                            break
                        if x is None:
                            v_sleep(0.1)
                        else:
                            got.append(x[0])
                if got != want:
                    i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
                    self.problems.append('consumer %d (%s) got %d of %d items; at %d %r instead of %r' % (j, how, len(got), len(want), i, got[i:i + 3], want[i:i + 3]))
            s.join(*[s.spawn(lambda j=j: consume(j), 'consumer%d' % j) for j in range(self.k)])
        self.outcome = (self.n, self.k)

    def check(self, s):
        return self.problems[:3]


def run(rep):
    b = rep.q(1, 2)
    one = {'for': F, 'next': N, 'sbfor': SF, 'sbnext': SN, 'for-chunks': F2, 'next-chunks': N2}
    to_end, stopped, short = [], [], []
    for n, c in one.items():
        short += [(n + ', fails', lambda c=c: Iterate([2, END], [c], ends=1)),
                  (n + ', stopped', lambda c=c: Iterate([2], [c], stop=0, ends=1))]
        to_end += [(n + ', source fails', lambda c=c: Iterate([2, 3, END], [c], pre=[1])),
                   (n + ', source fails after a pause', lambda c=c: Iterate([None, 2, None, END], [c])),
                   (n + ', key out of order', lambda c=c: Iterate([2, 3, 1], [c], pre=[1])),
                   (n + ', no key', lambda c=c: Iterate([2, 3, 9], [c], pre=[1], key_faults=[9])),
                   (n + ', empty stream', lambda c=c: Iterate([END], [c])),
                   (n + ', late', lambda c=c: Iterate([('delay', 0.25, 2), ('delay', 0.05, END)], [c], pre=[1])),
                   (n + ', eviction', lambda c=c: Iterate([2, 3, 4, END], [c], maxlen=2, pre=[1])),
                   (n + ', unlimited', lambda c=c: Iterate([2, 3, END], [c], maxlen=None, pre=[1])),
                   (n + ', long pause', lambda c=c: Iterate([2, ('delay', 5, 3), END], [c], pre=[1])),
                   (n + ', second session', lambda c=c: Iterate([2, END], [c], pre=[1], session=2))]
        stopped += [(n + ', at once', lambda c=c: Iterate([2, 3], [c], stop=0, pre=[1])),
                    (n + ', later', lambda c=c: Iterate([2, None, 3, 4], [c], stop=0.3, pre=[1])),
                    (n + ', read in progress', lambda c=c: Iterate([2, ('delay', 0.5, 3), 4], [c], stop=0.2, pre=[1])),
                    (n + ', read in progress, long', lambda c=c: Iterate([2, ('delay', 1.5, 3), 4], [c], stop=0.2, pre=[1])),
                    (n + ', slow consumer', lambda c=c: Iterate([2, 3, 4], [c], stop=0.2, pre=[1], slow=0.9)),
                    (n + ', slow consumer, eviction', lambda c=c: Iterate([2, 3, 4], [c], stop=0.2, pre=[1], slow=0.4, maxlen=2)),
                    (n + ', second session', lambda c=c: Iterate([2, 3], [c], stop=0.1, pre=[1], session=2))]
    rep.explore_many('to the end', to_end, bound=b)
    rep.explore_many('long streams', [('%d items, %d consumers, a pause every %d, %s, maxlen %r' % c, lambda c=c: Long(*c))
                                      for c in [(n, 1, e, h, m) for n in rep.q((130, 1100), (130, 1100, 5000)) for e in (1, 10, 64, 333) for h in ('for', 'next', 'chunks', 'wait', 'stream')
                                                for m in (None, 10000)] + [(40, k, e, h, None) for k in (6, 20, 50) for e in (1, 7) for h in ('for', 'all')]],
                     bound=0, gran='sync', max_time=10 ** 5, max_lines=10 ** 8, max_steps=10 ** 8)
    # loops that are left and entered again, loops mixed with single reads
    left = []
    for n, c in {'again': A, 'mixed': M, 'mixed chunks': M2}.items():
        left += [(n + ', source fails', lambda c=c: Iterate([2, 3, 4, END], [c], pre=[1])),
                 (n + ', source fails after a pause', lambda c=c: Iterate([None, 2, None, 3, END], [c])),
                 (n + ', empty stream', lambda c=c: Iterate([END], [c])),
                 (n + ', stopped at once', lambda c=c: Iterate([3, 4], [c], stop=0, pre=[1, 2])),
                 (n + ', stopped later', lambda c=c: Iterate([2, None, 3, 4, 5], [c], stop=0.3, pre=[1], slow=0.2)),
                 (n + ', second session', lambda c=c: Iterate([2, 3, END], [c], pre=[1], session=2)),
                 (n + ', with another', lambda c=c: Iterate([2, END], [c, F], pre=[1]))]
    rep.explore_many('loops left early', left, bound=b)
    # nothing comes for a long time
    pauses = [('%s, %s' % (n, m), lambda c=c, sc=sc, stop=stop: Iterate(sc, [c], pre=[1], stop=stop)) for n, c in one.items()
              for m, sc, stop in (('one read of 90 s', [2, ('delay', 90, 3), 4, END], None),
                                  ('no data for 75 s', [2] + [None] * 250 + [3, None, 4, END], None),
                                  ('stopped after 80 s', [2], 80), ('10 s ten times', [2] + [('delay', 10, 3 + k) for k in range(10)] + [END], None))]
    rep.explore_many('long pauses', pauses, bound=0, gran='sync', max_time=10_000)
    rep.explore_many('stopped', stopped, bound=b)
    pairs = [(n, m) for n in one for m in one if n <= m and (n, m) != ('sbnext', 'sbnext')]
    if not rep.thorough:
        pairs = [('for', 'next'), ('for', 'sbnext'), ('next-chunks', 'sbfor'), ('for', 'for')]
        short = [h for h in short if h[0].endswith('fails') or h[0] == 'for, stopped']
    rep.explore_many('two consumers', [('%s and %s' % p, lambda p=p: Iterate([2, END], [one[n] for n in p], pre=[1])) for p in pairs],
                     bound=rep.q(1, 2))
    for n, f in short:
        rep.explore('short: ' + n, f, bound=rep.q(2, 3))
