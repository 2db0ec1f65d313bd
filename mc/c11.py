"""C11: a blocking read returns the next item, and None only at the true end."""
from .loops import Follow


class Blocking(Follow):
    def check(self, s):
        return self.common(s) + self.delivery() + self.timing()


END = ('raise', 'end')
KINDS = {'one': ('read', {}), 'two': ('read', {'n': 2}), 'ignoring reader': ('read', {'ignoring': True}),
         'reader of chunks': ('read', {'read_size': 2}), 'ignoring': ('read', {'ignore_no_item_found': False, 'strict_n': False, 'n': 1}),
         'peek first': ('read', {'each': [{'peek': True}, {}]}), 'peek two': ('read', {'each': [{'peek': True, 'n': 2}, {'n': 1}]}),
         'peeking reader': ('read', {'peeking': True, 'each': [{}, {}, {'peek': False}]})}


def run(rep):
    to_end, stopped, short = [], [], []
    for n, c in KINDS.items():
        short += [(n + ', fails', lambda c=c: Blocking([2, END], [c], ends=1)),
                  (n + ', stopped', lambda c=c: Blocking([2], [c], stop=0, ends=1))]
        for iv in rep.q((0.1,) if 'peek' in n else (0.1, 1.7), (0.1, 0.25, 1.7)):
            to_end += [('%s every %s s, %s' % (n, iv, m), lambda c=c, iv=iv, sc=sc, kw=kw: Blocking(sc, [c], interval=iv, **kw))
                       for m, sc, kw in (
                           ('source fails', [2, 3, END], dict(pre=[1])),
                           ('pauses', [None, 2, None, END], {}),
                           ('key out of order', [2, 3, 1], dict(pre=[1])),
                           ('no key', [2, 9], dict(pre=[1], key_faults=[9])),
                           ('empty stream', [END], {}),
                           ('late', [('delay', 0.33, 2), ('delay', 0.05, 3), ('delay', 2.21, END)], dict(pre=[1])),
                           ('slow consumer', [2, ('delay', 0.05, 3), 4, END], dict(pre=[1], slow=0.04)),
                           ('second session', [2, END], dict(pre=[1], session=2)))]
            stopped += [('%s every %s s, %s' % (n, iv, m), lambda c=c, iv=iv, sc=sc, kw=kw: Blocking(sc, [c], interval=iv, **kw))
                        for m, sc, kw in (
                            ('at once', [2, 3], dict(stop=0, pre=[1])),
                            ('later', [2, None, 3, 4], dict(stop=0.32, pre=[1])),
                            ('long source polling', [None, 2], dict(stop=2.02, sleep=30, pre=[1])),
                            ('read in progress', [2, ('delay', 0.5, 3), 4], dict(stop=0.2, pre=[1])),
                            ('slow consumer', [2, 3, 4], dict(stop=0.2, pre=[1], slow=0.9)))]
    pauses = [('%s every %s s, %s' % (n, iv, m), lambda c=c, sc=sc, stop=stop, iv=iv: Blocking(sc, [c], pre=[1], stop=stop, interval=iv))
              for n, c in KINDS.items() for iv in (0.1, 1.7)
              for m, sc, stop in (('one read of 90 s', [2, ('delay', 90, 3), 4, END], None),
                                  ('no data for 75 s', [2] + [None] * 230 + [3, 4, END], None),
                                  ('stopped after 80 s', [2], 80), ('10 s ten times', [2] + [('delay', 10, 3 + k) for k in range(10)] + [END], None))]
    rep.explore_many('long pauses', pauses, bound=0, gran='sync', max_time=10_000)
    rep.explore_many('to the end', to_end, bound=rep.q(1, 2))
    rep.explore_many('stopped', stopped, bound=rep.q(1, 2))
    two = [('%s and %s' % (n, m), lambda n=n, m=m: Blocking([2, END], [KINDS[n], KINDS[m]], pre=[1], ends=rep.q(1, 3)))
           for n, m in (('one', 'two'), ('one', 'one'), ('two', 'reader of chunks'))[:rep.q(1, 3)]]
    rep.explore_many('two consumers', two, bound=rep.q(1, 2))
    for n, f in sorted(short, key=lambda h: h[0].endswith('stopped')):
        if rep.thorough or n in ('one, fails', 'two, fails', 'reader of chunks, fails', 'one, stopped'):
            fine = rep.thorough or not n.endswith('stopped')
            rep.explore('short: ' + n, f, bound=rep.q(2 if fine else 3, 3), gran='line' if fine else 'sync')
