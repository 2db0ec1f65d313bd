"""C08: range queries return exactly the buffered items of the requested key range."""
import itertools

from . import ref
from .c07 import SCHEMES, Reading, BufferReader, RWLockSortedDeque, threading
from .hist import bfs_many, cases
from .ref import op

B = (False, True)


def subsets(xs):
    return [c for n in range(len(xs) + 1) for c in itertools.combinations(xs, n)]


def single_calls(scheme, n_items, steps, ignores, defaults):
    """All calls on all contents; a case is (content, cursor, start, stop) with every combination of the other options."""
    keyfn, key, items, between = SCHEMES[scheme]
    items = items[:n_items]
    points = sorted([key(x) for x in list(items) + list(between)])
    cursors = [None] + sorted(list(items) + list(between), key=key)
    cs = [(c, cur, a, b) for c in subsets(items) for cur in cursors for a in points for b in points]
    opts = list(itertools.product(steps, B, ignores, B, B, B))
    stop, info = threading.Event(), {'a': 1}

    def check(case):
        content, cur, a, b = case
        content = list(content)
        buf = RWLockSortedDeque(content, key=keyfn, maxlen=len(items) + 1)
        out = []
        seen = []
        n = 0
        for default in defaults:
            for step, peek, ig, new, le, ge in opts:
                if default == (ig is True) and ig is not None:
                    continue            # an explicit option is tried against the opposite default only
                r = BufferReader(buf, info, stop, ignore_no_item_found=default)
                if cur is not None:
                    r.last_item = cur
                kw = dict(peek=peek, only_new=new, start_le=le, stop_ge=ge)
                args = (a, b) if step is None else (a, b, step)
                rkw = dict(kw, ignore=default if ig is None else ig)
                if ig is not None:
                    kw['ignore'] = ig
                o = op('range', *args, **kw)
                got = ref.call_real(r, o)
                allowed, _ = ref.range_(content, cur, key, *args, **rkw)
                n += 1
                seen.append(got[0])
                if got not in allowed:
                    out.append('%s by a reader (ignore_no_item_found=%r) that saw %r, on %r, gave %r, expected %r'
                               % (ref.show(o), default, cur, content, got, allowed[0]))
                    if len(out) > 2:
                        return out, n, None
        with buf.reader_lock() as w:
            if list(w) != content:
                out.append('the calls changed the buffer to %r from %r' % (list(w), content))
        return out, n, ''.join(s[0] for s in seen)

    return cs, check


def menu(scheme):
    keyfn, key, items, between = SCHEMES[scheme]
    ks = [key(x) for x in items]
    bt = [key(x) for x in between[:2]]
    lo, hi = ks[0], ks[4]
    out = []
    for (a, b), new, le, ge, peek in itertools.product(((lo, hi), (bt[0], bt[1]), (ks[1], ks[1]), (ks[3], ks[1])), B, B, B, B):
        out.append(op('range', a, b, only_new=new, start_le=le, stop_ge=ge, peek=peek, ignore=True))
    for new, ge in itertools.product(B, B):
        out.append(op('range', lo, ks[3], only_new=new, stop_ge=ge))
        out.append(op('range', lo, hi, 2, only_new=new, stop_ge=ge, ignore=False))
    return out + [op('read', ignore=True), op('tail', ignore=True), op('set', 1), op('set', -1), op('del')]


def run(rep):
    for scheme in SCHEMES:
        cs, check = single_calls(scheme, rep.q(3, 5), rep.q((None, 2), (None, 1, 2, 3)), (None, False, True), B)
        cases(rep, 'single calls, %s keys' % scheme, cs, check)
    hs = [('histories, %s keys' % s, lambda s=s: Reading(s, [{}], menu(s), 3, rep.q(4, 5)), rep.q(6, 30)) for s in SCHEMES]
    hs.append(('histories, two readers', lambda: Reading('first', [dict(ignore_no_item_found=True), {}], menu('first')[::3], 3, 4), rep.q(6, 20)))
    bfs_many(rep, hs)
    big(rep)
    huge(rep)


def big(rep):
    """A buffer of many items: every range of keys, with every combination of the roundings."""
    from .c07 import K0
    total = rep.q(40, 90)
    items = [(cur, a) for cur in (None, 0, 7, total, 2 * total - 2) for a in range(-1, 2 * total + 1)]
    stop, info = threading.Event(), {}
    content = [(2 * i, i) for i in range(total)]

    def check(case):
        cur, a = case
        buf = RWLockSortedDeque(content, key=K0, maxlen=total)
        n = 0
        for b in range(-1, 2 * total + 1):
            for new, le, ge in itertools.product(B if cur is not None else (False,), B, B):
                r = BufferReader(buf, info, stop)
                if cur is not None:
                    r.last_item = (cur, '?')
                o = op('range', a, b, only_new=new, start_le=le, stop_ge=ge, ignore=True, **({} if (a + b) % 3 else {'step': 3}))
                got = ref.call_real(r, o)
                allowed, last = ref.call_ref(content, None if cur is None else (cur, '?'), K0, o)
                n += 1
                if got not in allowed:
                    return ['%s after key %r on %d items gave %r, expected %r' % (ref.show(o), cur, total, got, allowed[0])], n, None
                if r.last_item != last:
                    return ['%s after key %r on %d items leaves the cursor at %r, expected %r' % (ref.show(o), cur, total, r.last_item, last)], n, None
        return [], n, n

    cases(rep, 'many items', items, check)


def huge(rep):
    """Ranges of a buffer of 12000 items (or the last 6000 of 18000), of every length around the usual limits."""
    from .c07 import HUGE, SIZES, huge_buffer
    stop = threading.Event()
    items = [(maxlen, a, n) for maxlen in (None, HUGE // 2) for a in (-3, -1, 0, 1, 200, 12000, 12001, 20000, 23990, 23998, 23999, 24001, 30000) for n in SIZES]

    def check(case):
        maxlen, a, n = case
        buf, content = huge_buffer(maxlen)
        k = 0
        for b, step, cur, le, ge, peek in itertools.product((a + 2 * n - 1, a + 2 * n), (None, 7, 1000), (None, (13000, '?')), B, B, B):
            if (le != ge) == peek and step is not None:
                continue
            r = BufferReader(buf, {}, stop)
            if cur:
                r.last_item = cur
            k += 1
            lo, hi = a, b
            if cur:
                lo = max(lo, 13002)
            if le and lo % 2 and content[0][0] < lo <= content[-1][0]:
                lo -= 1
            elif le and lo > content[-1][0]:
                lo = content[-1][0]
            want = None
            if ge:
                if hi > content[-1][0]:
                    want = ref.NONE
                elif hi < content[0][0]:
                    hi = content[0][0]
                else:
                    hi += hi % 2
            if want is None:
                i = max(0, (lo + 1) // 2 - content[0][1])
                j = max(0, hi // 2 - content[0][1] + 1) if hi >= 0 else 0
                got = content[i:j:step]
                want = ('ok', got) if got else ref.NONE
            kw = dict(ignore=True, only_new=cur is not None, start_le=le, stop_ge=ge, peek=peek)
            got = ref.call_real(r, op('range', a, b, step, **kw))
            brief = lambda g: '%s of %d items %r..%r' % (g[0], len(g[1]), g[1][:1], g[1][-1:]) if g[0] == 'ok' else repr(g)
            if got != want and not (got == ('ok', []) and want == ref.NONE and peek):
                return ['range(%r, %r, %r, %r) after %r gave %s, expected %s' % (a, b, step, kw, cur, brief(got), brief(want))], k, None
            last = cur if want[0] != 'ok' or peek else want[1][-1]
            if r.last_item != last:
                return ['range(%r, %r, %r, %r) after %r left the cursor at %r, expected %r' % (a, b, step, kw, cur, r.last_item, last)], k, None
        return [], k, (maxlen, a, n)

    cases(rep, 'huge buffer', items, check)
