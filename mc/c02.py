"""C02: bounded sorted deque: newest items, no stale appends; copy/pickle/clear/re-key keep bound and key."""
import copy as _copy
import pickle

from . import load
load.load()
from stream2py.utility.sorted_deque import SortedDeque                   # noqa: E402
from stream2py.utility.locked_sorted_deque import RWLockSortedDeque      # noqa: E402
from .c01 import K, NEG, KEYS, attempt                                   # noqa: E402
from .hist import bfs, canon                                             # noqa: E402


def keyfn(name):
    return KEYS[name] or (lambda x: x)


class Bounded:
    def __init__(self, maxlen, maxlens, keys, kname, locked=False):
        self.maxlen, self.maxlens, self.kname = maxlen, maxlens, kname
        self.keyset = keys
        self.locked = locked
        if locked:
            self.lock = RWLockSortedDeque((), key=KEYS[kname], maxlen=maxlen)
            with self.lock.writer_lock() as w:
                self.impl = w
        else:
            self.impl = SortedDeque((), KEYS[kname], maxlen)
        self.model = []
        self.others = []          # (object, content, key name, maxlen): originals of copies

    def ops(self):
        out = [('append', (k, 'a')) for k in self.keyset]
        out.append(('append', ()))
        n = len(self.model)
        out += [('drop', i) for i in (0, 1, 2) if i <= n]
        if not self.locked:
            out += [('maxlen', m) for m in self.maxlens] + [('delmaxlen',)]
            out += [('key', k) for k in ('K', 'NEG', None)] + [('delkey',)]
            out += [('copy',), ('copycopy',), ('pickle',)]
            out += [('insert', (k + 0.5, 'b')) for k in self.keyset[:2]]
        out += [('clear',), ('extend3',)]
        return out

    def apply(self, op):
        if self.locked:
            with self.lock.writer_lock() as w:
                self.impl = w
                return self._apply(op)
        return self._apply(op)

    def _trim(self):
        if self.maxlen is not None:
            del self.model[:-self.maxlen]

    def _apply(self, op):
        n, a = op[0], op[1:]
        out = []
        f = keyfn(self.kname)
        m = self.model
        s = self.impl
        if n == 'append':
            x = a[0]
            got = attempt(s.append, x)
            if x == () and self.kname is not None:
                if got[0] != 'raise':
                    out.append('append(()) gave %r' % (got,))
            elif m and not f(x) > f(m[-1]):
                if got != ('raise', 'ValueError'):
                    out.append('stale append(%r) gave %r' % (x, got))
            else:
                if got != ('ok', None):
                    out.append('append(%r) gave %r' % (x, got))
                m.append(x)
                self._trim()
        elif n == 'extend3':       # three appends above everything there
            top = max([abs(x[0]) for x in m if x] or [0])
            for i in range(1, 4):
                k = top + i
                x = (-k if self.kname == 'NEG' else k, 'e')
                got = attempt(s.append, x)
                if m and not f(x) > f(m[-1]):
                    if got != ('raise', 'ValueError'):
                        out.append('stale append(%r) gave %r' % (x, got))
                    continue
                if got != ('ok', None):
                    out.append('append(%r) gave %r' % (x, got))
                m.append(x)
                self._trim()
        elif n == 'insert':
            got = attempt(s.insert, a[0])
            if self.maxlen is not None and len(m) >= self.maxlen:
                if got[0] != 'raise':
                    out.append('insert into a full deque gave %r' % (got,))
            else:
                if got != ('ok', None):
                    out.append('insert gave %r' % (got,))
                i = len([x for x in m if f(x) < f(a[0])])
                m.insert(i, a[0])
        elif n == 'drop':
            got = attempt(s.drop, *a) if a != (1,) else attempt(s.drop)
            if got != ('ok', None):
                out.append('drop gave %r' % (got,))
            del m[:a[0]]
        elif n == 'maxlen':
            s.maxlen = self.maxlen = a[0]
            self._trim()
        elif n == 'delmaxlen':
            del s.maxlen
            self.maxlen = None
        elif n in ('key', 'delkey'):
            k = a[0] if n == 'key' else None
            if k != self.kname and any(x == () for x in m):
                return out
            if n == 'key':
                s.key = KEYS[k]
            else:
                del s.key
            self.kname = k
            self.model = m = sorted(m, key=keyfn(k))
        elif n in ('copy', 'copycopy', 'pickle'):
            got = attempt({'copy': s.copy, 'copycopy': lambda: _copy.copy(s),
                           'pickle': lambda: pickle.loads(pickle.dumps(s))}[n])
            if got[0] != 'ok':
                return ['%s gave %r' % (n, got)]
            if type(got[1]) is not SortedDeque:
                out.append('%s gave a %s' % (n, type(got[1]).__name__))
            if got[1] is s:
                out.append('%s gave the object itself' % n)
            self.others = [(s, list(m), self.kname, self.maxlen)]
            self.impl = got[1]
        elif n == 'clear':
            got = attempt(s.clear)
            if got != ('ok', None):
                out.append('clear gave %r' % (got,))
            m.clear()
        return out

    def check(self):
        out = []
        out += self._state('', self.impl, self.model, self.kname, self.maxlen)
        for o in self.others:
            out += self._state('the original of the copy: ', *o)
        if self.locked:
            if len(self.lock) != len(self.model):
                out.append('len of the locked deque is %d' % len(self.lock))
            with self.lock.reader_lock() as r:
                if list(r) != self.model:
                    out.append('the locked deque shows %r' % list(r))
            if self.lock.key((7, 'x')) != keyfn(self.kname)((7, 'x')):
                out.append('key of the locked deque')
        # behaviour from here on: appends at the top must respect the bound (on a copy, to leave this one alone)
        return ['%s (expected content %r, key %s, maxlen %r)' % (o, self.model, self.kname, self.maxlen) for o in out]

    def _state(self, who, s, m, kname, maxlen):
        out = []
        f = keyfn(kname)
        if list(s) != m:
            out.append('%scontent %r, expected %r' % (who, list(s), m))
        if len(s) != len(m):
            out.append('%slen %d' % (who, len(s)))
        if s.maxlen != maxlen:
            out.append('%smaxlen %r' % (who, s.maxlen))
        for x in m + [(5, 'p')]:
            if s.key(x) != f(x):
                out.append('%skey function gives %r for %r' % (who, s.key(x), x))
        # the key index agrees with the items
        for x in m:
            if f(s.find(f(x))) != f(x) or x not in s or s.index(x) != m.index(x):
                out.append('%scannot find %r' % (who, x))
        if m:
            if attempt(s.find_gt, f(m[-1])) != ('raise', 'ValueError') or attempt(s.find_lt, f(m[0])) != ('raise', 'ValueError'):
                out.append('%sfinds items beyond its ends' % who)
        return out

    def canon(self):
        return canon(self.impl, self.model, self.kname, self.maxlen,
                     [(o[1], o[2], o[3]) for o in self.others], self.others and self.others[0][0])


def run(rep):
    d = rep.q(3, 5)
    for maxlen in (None, 1, 2, 3):
        for kname in ('K', None, 'NEG'):
            bfs(rep, 'maxlen %r key %s' % (maxlen, kname),
                lambda maxlen=maxlen, kname=kname: Bounded(maxlen, (1, 2, 3), (1, 2, 3) if kname != 'NEG' else (-1, -2, -3), kname),
                d + (1 if kname == 'K' and not rep.thorough else 0))
    long_runs(rep)
    for maxlen in (None, 1, 2, 3):
        bfs(rep, 'locked, maxlen %r' % maxlen, lambda maxlen=maxlen: Bounded(maxlen, (), (1, 2, 3, 4, 5), 'K', True), rep.q(6, 8))


def long_runs(rep):
    """Long histories: the bound and the content after every one of many appends, drops and changes of the bound."""
    from .hist import cases
    items = [(maxlen, drop, every, bound) for maxlen in (None, 5, 16, 33, 64, 100) for drop in (0, 1, 4, 15) for every in (7, 40)
             for bound in (None, 3, 20, 50)]

    def check(case):
        maxlen, drop, every, bound = case
        s = SortedDeque((), keyfn('K'), maxlen)
        m = []
        out = []
        for i in range(rep.q(160, 400)):
            x = (2 * i, 'x')
            s.append(x)
            m.append(x)
            if maxlen is not None:
                del m[:-maxlen]
            got = attempt(s.append, (2 * i, 'y'))
            if got != ('raise', 'ValueError'):
                out.append('a second append of the last key gave %r' % (got,))
            got = attempt(s.append, (2 * i - 1, 'y'))
            if got != ('raise', 'ValueError'):
                out.append('an append below the last key gave %r' % (got,))
            if i % every == every - 1:
                n = min(drop, len(m))
                s.drop(n)
                del m[:n]
                if bound is not None:
                    maxlen = bound if maxlen != bound else case[0]
                    s.maxlen = maxlen
                    if maxlen is not None:
                        del m[:-maxlen]
                if i % 3 == 0:
                    s = s.copy()
            if list(s) != m or len(s) != len(m) or s.maxlen != maxlen:
                out.append('after %d appends: %d items %r..., expected %d items %r...' % (i + 1, len(s), list(s)[:3], len(m), m[:3]))
            for x in m[:1] + m[len(m) // 2:len(m) // 2 + 1] + m[-1:]:
                if attempt(s.find, x[0]) != ('ok', x) or attempt(s.index, x) != ('ok', m.index(x)) or x not in s:
                    out.append('after %d appends %r is not found' % (i + 1, x))
            if out:
                return out[:3], i, None
        return out, i, len(m)

    cases(rep, 'long histories', items, check)
