"""C01: sorted containers answer every query like a plain sorted list."""
from . import load, sched
load.load()
from stream2py.utility.sorted_collection import SortedCollection  # noqa: E402
from stream2py.utility.sorted_deque import SortedDeque            # noqa: E402
from .hist import bfs, canon                                      # noqa: E402


def K(x):
    return x[0]


def NEG(x):
    return -x[0]


KEYS = {'K': K, 'NEG': NEG, None: None}


def keyfn(name):
    return KEYS[name] or (lambda x: x)


VE = 'ValueError'


def attempt(fn, *a):
    try:
        return ('ok', fn(*a))
    except Exception as e:
        return ('raise', type(e).__name__)


class Sorted:
    """The implementation next to a plain list kept sorted by linear scans."""

    def __init__(self, cls, items, maxlen=None, rekey=True):
        self.cls, self.universe, self.maxlen = cls, items, maxlen
        self.deque = cls is SortedDeque
        self.rekey = rekey
        self.impl = cls((), K, maxlen) if self.deque else cls((), K)
        self.model = []
        self.kname = 'K'
        self.other = cls([(2, 'z')], K)              # a bystander

    # ------------------------------------------------------------ operations
    def ops(self):
        out = []
        for x in self.universe:
            out.append(('insert', x))
            out.append(('insert_right', x))
            out.append(('remove', x))
            if self.deque:
                out.append(('append', x))
        if self.deque and self.model:
            out.append(('drop', 1))
        if self.rekey:
            out += [('key', 'NEG'), ('key', 'K'), ('copy',)]
        if self.model:
            out.append(('clear',))
        return out

    def keys(self):
        f = keyfn(self.kname)
        return [f(x) for x in self.model]

    def apply(self, op):
        out = []
        n, a = op[0], op[1:]
        f = keyfn(self.kname)
        m = self.model
        want = ('ok', None)
        if n in ('insert', 'insert_right', 'append', 'remove', 'drop', 'clear'):
            if n == 'insert':
                if self.maxlen is not None and len(m) >= self.maxlen:
                    want = None
                else:
                    i = len([x for x in m if f(x) < f(a[0])])
                    m.insert(i, a[0])
            elif n == 'insert_right':
                if self.maxlen is not None and len(m) >= self.maxlen:
                    want = None
                else:
                    i = len([x for x in m if f(x) <= f(a[0])])
                    m.insert(i, a[0])
            elif n == 'append':
                if m and not f(a[0]) > f(m[-1]):
                    want = ('raise', VE)
                else:
                    m.append(a[0])
                    if self.maxlen is not None:
                        del m[:-self.maxlen]
            elif n == 'remove':
                if a[0] in m:
                    m.remove(a[0])
                else:
                    want = ('raise', VE)
            elif n == 'drop':
                del m[:a[0]]
            else:
                m.clear()
            got = attempt(getattr(self.impl, n), *a)
            if want is None:
                if got[0] != 'raise':
                    out.append('%s on a full bounded deque gave %r' % (n, got))
            elif got != want:
                out.append('%s%r gave %r, expected %r' % (n, a, got, want))
        elif n == 'key':
            self.kname = a[0]
            self.impl.key = KEYS[a[0]]
            self._resync(out, 'changing the key')
        elif n == 'copy':
            old = self.impl
            self.impl = old.copy()
            if type(self.impl) is not type(old):
                out.append('copy is a %s' % type(self.impl).__name__)
            self._resync(out, 'copying')
        return out

    def _resync(self, out, what):
        """Equal keys keep their order (sorting a list by key is stable)."""
        got = list(self.impl)
        want = sorted(self.model, key=keyfn(self.kname))
        if got != want:
            out.append('after %s of %r: %r' % (what, self.model, got))
        self.model = got

    # ------------------------------------------------------------ queries
    def check(self):
        out = []
        s, m = self.impl, self.model
        f = keyfn(self.kname)
        before = canon(s)
        if list(s) != m:
            return ['content %r, expected %r' % (list(s), m)]
        if list(reversed(s)) != m[::-1]:
            out.append('reversed gave %r' % list(reversed(s)))
        if len(s) != len(m):
            out.append('len gave %r' % len(s))
        n = len(m)
        for i in range(-n - 1, n + 1):
            got = attempt(s.__getitem__, i)
            want = ('ok', m[i]) if -n <= i < n else ('raise', 'IndexError')
            if got != want:
                out.append('[%d] gave %r, expected %r' % (i, got, want))
        if not self.deque:
            for i in range(0, n + 1):
                for j in range(0, n + 1):
                    if s[i:j] != m[i:j]:
                        out.append('[%d:%d] gave %r' % (i, j, s[i:j]))
        for x in self.universe + [(9, 'q')]:
            q = [('in', attempt(lambda: x in s), ('ok', x in m)),
                 ('index', attempt(s.index, x), ('ok', m.index(x)) if x in m else ('raise', VE)),
                 ('count', attempt(s.count, x), ('ok', m.count(x)))]
            for w, got, want in q:
                if got != want:
                    out.append('%s %r gave %r, expected %r' % (w, x, got, want))
        ks = sorted({f(x) for x in self.universe})
        probes = sorted(set(ks + [k + 0.5 for k in ks] + [ks[0] - 1]))
        for p in probes:
            sched._Solo.lines = 0          # the limit is for one query, not for all of them
            eq = [x for x in m if f(x) == p]
            le = [x for x in m if f(x) <= p]
            lt = [x for x in m if f(x) < p]
            ge = [x for x in m if f(x) >= p]
            gt = [x for x in m if f(x) > p]
            q = [('find', eq and eq[0]), ('find_le', le and le[-1]), ('find_lt', lt and lt[-1]), ('find_ge', ge and ge[0]),
                 ('find_gt', gt and gt[0])]
            if self.deque:
                q.append(('find_last_gt', gt and gt[-1]))
            for w, want in q:
                got = attempt(getattr(s, w), p)
                want = ('ok', want) if want else ('raise', VE)
                if got != want:
                    out.append('%s(%r) gave %r, expected %r' % (w, p, got, want))
            sched._Solo.lines = 0
            if self.deque:
                for p2 in probes:
                    for step in (None, 1, 2, 3):
                        got = attempt(s.range, p, p2, step)
                        want = ('ok', [x for x in m if p <= f(x) <= p2][::step])
                        if got != want:
                            out.append('range(%r, %r, %r) gave %r, expected %r' % (p, p2, step, got, want))
        if self.deque:
            for i in range(0, n + 2):
                sched._Solo.lines = 0
                for j in range(0, n + 2):
                    for step in (None, 1, 2):
                        got = attempt(s.range_by_index, i, j, step)
                        want = ('ok', m[i:j:step])
                        if got != want:
                            out.append('range_by_index(%r, %r, %r) gave %r, expected %r' % (i, j, step, got, want))
        if list(s) != m or canon(s) != before:
            if list(s) != m or len(s) != len(m):
                out.append('a query changed the container to %r' % (list(s),))
        if list(self.other) != [(2, 'z')] or self.other.find(2) != (2, 'z'):
            out.append('another container changed: %r' % list(self.other))
        return [o + ' in %r' % (m,) for o in out]

    def canon(self):
        return canon(self.impl, self.model, self.kname)


class Built:
    pass


def run(rep):
    U = [(1, 'a'), (1, 'b'), (2, 'a'), (3, 'a')]
    d = rep.q(5, 7)
    bfs(rep, 'SortedCollection', lambda: Sorted(SortedCollection, U), d)
    bfs(rep, 'SortedDeque unbounded', lambda: Sorted(SortedDeque, U), d)
    bfs(rep, 'SortedDeque maxlen 2', lambda: Sorted(SortedDeque, U, 2), d + 1)
    # many equal keys, no re-keying
    V = [(1, 'a'), (2, 'a'), (2, 'b')]
    bfs(rep, 'SortedCollection ties', lambda: Sorted(SortedCollection, V, rekey=False), d + 1)
    bfs(rep, 'SortedDeque ties', lambda: Sorted(SortedDeque, V, rekey=False), d + 1)
    W = [D(1, 'b'), D(1, 'a'), D(2, 'a')]
    bfs(rep, 'SortedCollection dicts', lambda: Sorted(SortedCollection, W), d)
    bfs(rep, 'SortedDeque dicts', lambda: Sorted(SortedDeque, W), d)
    built(rep)


def D(k, v):
    """An item that cannot be compared with others."""
    return {0: k, 1: v}


def built(rep):
    """Construction from every iterable up to a length, over keys with ties."""
    import itertools
    from .hist import cases
    pool = [(1, 'b'), (1, 'a'), (2, 'a'), (3, 'b')]
    n = rep.q(4, 5)
    items = [(c, k, xs) for c in ('coll', 'deque', 'deque2') for k in ('K', 'NEG', None)
             for r in range(n + 1) for xs in itertools.product(pool, repeat=r)]
    items += [(c, k, xs) for c in ('coll', 'deque', 'deque2') for k in ('K', 'NEG')
              for r in range(n + 1) for xs in itertools.product([D(1, 'b'), D(1, 'a'), D(2, 'a')], repeat=r)]

    def check(case):
        c, k, xs = case
        arg = iter(xs) if len(xs) % 2 else list(xs)
        maxlen = 2 if c == 'deque2' else None
        s = (SortedCollection(arg, KEYS[k]) if c == 'coll' else
             SortedDeque(arg, KEYS[k]) if c == 'deque' else SortedDeque(arg, KEYS[k], 2))
        f = keyfn(k)
        got = list(s)
        want = sorted(xs, key=f)
        if maxlen:
            want = want[-maxlen:]
        if got != want:
            return ['built from %r: %r' % (xs, got)], 1, got
        h = Sorted.__new__(Sorted)
        h.cls = SortedCollection if c == 'coll' else SortedDeque
        h.deque = c != 'coll'
        h.universe = pool if k else []
        h.maxlen, h.kname, h.impl, h.model = maxlen, k, s, got
        h.other = h.cls([(2, 'z')], K)
        if k is None:
            return [], 1, got
        return h.check(), 1, got

    cases(rep, 'construction', items, check)
    large(rep)


def large(rep):
    """Containers of sizes far beyond the histories above, made in several ways, with every query."""
    from .hist import cases
    shapes = {'distinct': lambda n: [(2 * i, 'a') for i in range(n)],
              'sixes': lambda n: [(i // 6, chr(97 + i % 6)) for i in range(n)],
              'all equal': lambda n: [(1, i) for i in range(n)],
              'one run': lambda n: [(0, 0), (1, 0)] + [(2, i) for i in range(n - 4)] + [(3, 0), (4, 0)]}
    sizes = rep.q((9, 17, 34, 70), (9, 16, 17, 33, 34, 65, 70, 129, 140))
    items = [(c, sh, n, how) for c in ('coll', 'deque') for sh in shapes for n in sizes
             for how in ('built', 'built backwards', 'inserted right', 'inserted backwards', 'appended', 'thinned')
             if how != 'appended' or c == 'deque' and sh == 'distinct']

    def check(case):
        c, sh, n, how = case
        cls = SortedCollection if c == 'coll' else SortedDeque
        xs = shapes[sh](n)
        want = list(xs)
        if how == 'built':
            s = cls(xs, K)
        elif how == 'built backwards':
            s = cls(xs[::-1], K)
            want = sorted(xs[::-1], key=K)
        else:
            s = cls((), K)
            for x in xs if how in ('inserted right', 'appended') else xs[::-1]:
                (s.insert_right if how == 'inserted right' else s.append if how == 'appended' else s.insert)(x)
            if how == 'thinned':
                for x in xs[::3]:
                    s.remove(x)
                want = [x for i, x in enumerate(xs) if i % 3]
        h = Sorted.__new__(Sorted)
        h.cls, h.deque, h.maxlen, h.kname, h.impl, h.model = cls, c == 'deque', None, 'K', s, want
        h.universe = xs
        h.other = cls([(2, 'z')], K)
        return h.check()[:3], 1, len(want)

    cases(rep, 'large containers', items, check, chunk=1)
