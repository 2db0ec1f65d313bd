"""C24: template filling resolves references fully or fails loudly; URL joining is clean."""
import itertools
import resource

from . import load
from .hist import cases

pack = load.load_pack()

FIELDS = 'abc'


class Cyclic(Exception):
    pass


class Missing(Exception):
    pass


def pieces(t):
    """A template as a list of texts and ('field',)."""
    out, i = [], 0
    while i < len(t):
        if t[i] == '{':
            j = t.index('}', i)
            out.append((t[i + 1:j],))
            i = j + 1
        else:
            out.append(t[i])
            i += 1
    return out


def fill(d, kw):
    """The model: every value filled recursively; the dict wins over the keywords."""
    def value(k, path):
        if k in path:
            raise Cyclic
        v = d[k] if k in d else kw[k]
        if not isinstance(v, str):
            return v
        return text(v, path + (k,))

    def text(v, path):
        out = ''
        for p in pieces(v):
            if isinstance(p, tuple):
                if p[0] not in d and p[0] not in kw:
                    raise Missing
                out += str(value(p[0], path))
            else:
                out += p
        return out

    # a field that nobody provides, directly in the dict
    for v in d.values():
        if isinstance(v, str):
            for p in pieces(v):
                if isinstance(p, tuple) and p[0] not in d and p[0] not in kw:
                    raise Missing
    return {k: value(k, ()) for k in d}


def check_fill(c):
    d, kw = dict(c[0]), dict(c[1])
    kept, kept_kw = dict(d), dict(kw)
    try:
        want = fill(d, kw)
    except (Cyclic, Missing) as e:
        want = type(e).__name__
    out = []
    try:
        got = pack.format_str_vals_of_dict(d, **kw)
    except ValueError:
        got = 'ValueError'
    if isinstance(want, str):
        if got != 'ValueError':
            out.append('%r with %r is filled to %r, but has %s references' % (d, kw, got, want.lower()))
    elif got != want or [type(v) for v in got.values()] != [type(v) for v in want.values()]:
        out.append('%r with %r is filled to %r, expected %r' % (d, kw, got, want))
    elif list(got) != list(kept):
        out.append('the order changed: %r' % (got,))
    if d != kept or kw != kept_kw:
        out.append('the input was changed: %r' % (d,))
    if got is d:
        out.append('the input itself was returned')
    return out, 1, want if isinstance(want, str) else 'filled'


def check_rounds(c):
    d, kw, rounds = dict(c[0]), dict(c[1]), c[2]
    try:
        want = fill(d, kw)
    except (Cyclic, Missing):
        want = None
    try:
        got = pack.format_str_vals_of_dict(d, max_formatting_loops=rounds, **kw)
    except ValueError:
        return [], 1, 'ValueError'
    return [] if got == want else ['%r with %r in %d rounds is filled to %r' % (d, kw, rounds, got)], 1, 'filled'


def check_join(c):
    got = pack.ujoin(*c)
    parts = [p for p in c if p]
    out = []
    words = [p.strip('/') for p in parts if p.strip('/')]
    core = '/'.join(words)
    if words:
        want = ('/' if parts[0][0] == '/' else '') + core + ('/' if parts[-1][-1] == '/' else '')
    else:
        want = '/' if parts else ''
    if got != want:
        out.append('ujoin%r is %r, expected %r' % (c, got, want))
    return out, 1, len(words)


def run(rep):
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))     # a value that grows without end is an error, not the end of the machine
    temps = ['', 'x', '{a}', '{b}', '{c}', 'p{b}q', '{a}{b}', '{c}-{b}', '{z}', 7]
    if rep.thorough:
        temps += ['{a}{a}', '{c}{c}', '{a}{b}{c}', None]
    kws = [{}, {'z': 'Z'}, {'a': 'A', 'z': 'Z'}, {'b': 'B', 'c': 'C'}, {'z': '{b}!'}, {'c': 5}, {'b': '{a}', 'c': 'C'}, {'a': 'A', 'b': 'B', 'c': 'C', 'z': 'Z'}, {'unused': '{unused}'}]
    cs = []
    for n in range(4):
        for ks in itertools.combinations(FIELDS, n):
            for order in itertools.permutations(ks) if n == 2 else [ks]:
                for vs in itertools.product(temps, repeat=n):
                    for kw in kws:
                        cs.append((tuple(zip(order, vs)), tuple(kw.items())))
    cases(rep, 'every reference graph over three fields', cs, check_fill)
    # longer chains, in every order, with and without a cycle, and wide sharing
    cs = []
    for n in range(2, rep.q(6, 7)):
        ks = 'abcdefgh'[:n]
        for order in itertools.permutations(range(n)) if n < 6 else itertools.islice(itertools.permutations(range(n)), 200):
            for last in ('end', '{z}', '{a}', '{%s}' % ks[-1]):
                vals = ['<{%s}>' % ks[i + 1] for i in range(n - 1)] + [last]
                cs.append((tuple((ks[i], vals[i]) for i in order), (('z', 'Z'),)))
                vals = ['{%s}{%s}' % (ks[i + 1], ks[-1]) for i in range(n - 1)] + [last]
                cs.append((tuple((ks[i], vals[i]) for i in order), (('z', 'Z'),)))
    for n in (9, 12, 20, 33, 34, 65, 100, 129, 200, 300):
        ks = ['f%d' % i for i in range(n)]
        for order in (range(n), range(n - 1, -1, -1), sorted(range(n), key=lambda i: (i * 7) % n)):
            for last in ('end', '{z}'):
                cs.append((tuple((ks[i], '<{%s}' % ks[i + 1] if i < n - 1 else last) for i in order), (('z', 'Z'),)))
    cases(rep, 'chains', cs, check_fill)
    cases(rep, 'chains, few rounds', [c + (k,) for c in cs for k in (0, 1, 2, 3, 5)], check_rounds)
    parts = ['', '/', 'a', '/a', 'a/', '/a/', 'http://h', 'a/b', '/a/b/']
    cases(rep, 'every list of parts', [c for n in range(rep.q(4, 5)) for c in itertools.product(parts, repeat=n)], check_join)
