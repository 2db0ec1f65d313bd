"""C04: reader-writer lock: readers share; a waiting writer goes before readers that arrive later."""
from . import load, sched
load.load()
from stream2py.utility.reader_writer_lock import RWLock                  # noqa: E402
from stream2py.utility.locked_sorted_deque import RWLockSortedDeque      # noqa: E402


class Phases:
    """script: phases separated by '/'. Each phase starts its threads (r or w) and waits until everything rests: every
    thread is inside (held at a gate), waiting in acquire, or done. '-k' lets the k-th thread leave, '*' all of them; what
    stands in one phase happens concurrently.
    Oracle: at each rest the writers waiting there are certified waiting; readers waiting there, and readers arriving later,
    must not enter before all those writers. A reader arriving with only readers inside and no writer anywhere enters."""
    _opaque = True

    def __init__(self, script, cls=RWLock):
        self.script = script
        self.lock = cls()
        self.bad = []
        self.entries = []              # thread numbers, in order of entry
        self.kinds = []
        self.state = []                # new / calling / inside / done
        self.open = set()
        self.free = False
        self.must_follow = {}          # reader -> set of writers that must have entered before it
        self.outcome = None
        self.certified = set()

    def shared(self):
        return (self.lock, self.bad, self.entries, self.kinds, self.state, sorted(self.open), self.free,
                sorted((k, sorted(v)) for k, v in self.must_follow.items()), sorted(self.certified))

    def thread(self, i, kind):
        s, lock = self.s, self.lock
        # certified writers that have not entered: this reader arrives later than they wait
        if kind == 'r':
            self.must_follow[i] = {w for w in self.certified if self.state[w] == 'calling'}
        self.state[i] = 'calling'
        (lock.reader_acquire if kind == 'r' else lock.writer_acquire)()
        self.state[i] = 'inside'
        self.entries.append(i)
        if kind == 'r':
            late = [w for w in sorted(self.must_follow[i]) if w not in self.entries]
            if late:
                self.bad.append('reader %d entered before the waiting writers %s (%s)' % (i, late, self.script))
        both = [self.kinds[j] for j in range(len(self.kinds)) if self.state[j] == 'inside']
        if len(both) > 1 and 'w' in both:
            self.bad.append('inside together: %s' % both)
        s.wait_for(lambda: self.free or i in self.open, 'gate')
        s.sync()
        self.state[i] = 'leaving'
        (lock.reader_release if kind == 'r' else lock.writer_release)()
        self.state[i] = 'done'

    def rest(self):
        s, ts = self.s, self.ts
        s.wait_for(lambda: all(t.state == 'done' or (t.state == 'blocked' and not s._enabled(t)) for t in ts), 'rest')
        inside = [i for i, x in enumerate(self.state) if x == 'inside']
        waiting_w = [i for i, x in enumerate(self.state) if x == 'calling' and self.kinds[i] == 'w']
        waiting_r = [i for i, x in enumerate(self.state) if x == 'calling' and self.kinds[i] == 'r']
        self.certified |= set(waiting_w)
        for r in waiting_r:
            self.must_follow[r] = self.must_follow[r] | set(waiting_w)
        if waiting_r and not waiting_w and all(self.kinds[i] == 'r' for i in inside):
            self.bad.append('readers %s wait although only readers %s are inside and no writer waits (%s)'
                            % (waiting_r, inside, self.script))
        if waiting_w and not inside:
            self.bad.append('writers %s wait although nobody is inside (%s)' % (waiting_w, self.script))

    def main(self, s):
        self.s = s
        self.ts = []
        for ph in self.script.split('/'):
            for c in ph.split():
                if c in 'rw':
                    i = len(self.kinds)
                    self.kinds.append(c)
                    self.state.append('new')
                    self.ts.append(s.spawn(lambda i=i, c=c: self.thread(i, c), '%s%d' % (c, i)))
                elif c[0] == '-':
                    self.open.add(int(c[1:]))
                elif c == '*':
                    self.free = True
            self.rest()
        s.join(*self.ts)

    def check(self, s):
        self.outcome = self.entries
        return sorted(set(self.bad))[:4]


# a phase without '!' comes to rest before the next one starts
QUICK = [
    'r/r/*', 'r r/*', 'r/r r/*', 'w/-0/r/r/*',             # sharing, also after a writer has been there
    'r/w/-0/r/r/*', 'r/w/r/-0/-1/*',
    'r/w/r/*', 'r/w/* r', 'r/w/-0 r/*', 'r/w/r/-0 r/*',   # later readers
    'w/w/r/*', 'w/r/w/*', 'w/w/* r', 'w/w/w/r/*', 'w/r/w/w/*',
    'r/w/w/r/*', 'r/w/r/w/*', 'r/w w/r/*', 'r/w/w/-0 r/*', 'w/w/-0 r/*',
    'r r/w/-0/r/-1/*', 'r/r/w/-1/-0 r/*',
]
THOROUGH = QUICK + ['r/w/r r/*', 'r/w/w/* r r', 'w/r r/w/*', 'w/w w/r r/*', 'r/w/w w/r/*', 'r r/w w/-0 r/-1/*', 'w/w/r/-0 r/-1 r/*',
                    'r/w/r/w/r/*', 'w/r/w/r/w/*']


def run(rep):
    rep.stateful([(p, (lambda p=p: Phases(p))) for p in rep.q(QUICK, THOROUGH)], gran='line')
    rep.stateful([('locked deque: ' + p, (lambda p=p: Phases(p, RWLockSortedDeque))) for p in ('r/r/*', 'r/w/r/*', 'w/r/w/*')], gran='line')
