"""C19: the context-forwarding wrapper calls, enters and exits exactly like the original."""
import functools
import inspect
import io
import itertools

from . import load
from .hist import cases

load.load()
from stream2py.util import ContextualizeCall, contextualize_with_instance  # noqa: E402

KINDS = 'pPdD*kK!'      # pos-only, pos-or-kw, pos-only default, pos-or-kw default, *args, kw-only, kw-only default, **kwargs
ORDER = {'p': 0, 'd': 1, 'P': 2, 'D': 3, '*': 4, 'k': 5, 'K': 6, '!': 7}


class Boom(BaseException):
    pass


def shapes(n):
    """Every valid parameter list of up to n parameters, as (kinds, source)."""
    for m in range(n + 1):
        for ks in itertools.combinations_with_replacement(sorted(KINDS, key=ORDER.get), m):
            if ks.count('*') > 1 or ks.count('!') > 1 or 'd' in ks and 'P' in ks:
                continue
            src, star = [], False
            for i, k in enumerate(ks):
                if k in 'kK' and not star and '*' not in ks:
                    src.append('*')
                    star = True
                src.append({'*': '*', '!': '**'}.get(k, '') + 'a%d' % i + ('=7' if k in 'dDK' else ''))
                if k in 'pd' and (i + 1 == len(ks) or ks[i + 1] not in 'pd'):
                    src.append('/')
            yield ''.join(ks), ', '.join(src)


def function(src, kind='function', body='None'):
    """A callable of the given parameters, made in one of several ways."""
    ns = {}
    if kind == 'function':
        exec('def f(%s): return %s' % (src, body), ns)
        return ns['f']
    if kind == 'method':
        exec('class C:\n def f(self%s): return %s' % (', ' + src if src and not src.startswith('/') else '', body), ns)
        return ns['C']().f
    if kind == 'instance':
        exec('class C:\n def __call__(self%s): return %s' % (', ' + src if src else '', body), ns)
        return ns['C']()
    if kind == 'partial':
        exec('def f(first%s): return %s' % (', ' + src if src else '', body), ns)
        return functools.partial(ns['f'], 1)
    raise AssertionError(kind)


def fits(f, n):
    try:
        inspect.signature(f).bind(*[None] * n)
        return True
    except TypeError:
        return False


def construct(**kw):
    try:
        ContextualizeCall(lambda x: x, **kw)
        return None
    except Exception as e:
        return e


def check_validity(c):
    kind, ks, src = c
    f = function(src, kind)
    n = len(ks)
    out = []
    e = construct(enter_func=f)
    if n == 0 and not isinstance(e, TypeError):
        out.append('enter function without parameters: %r' % (e,))
    if fits(f, 1) and e is not None:
        out.append('suitable enter function (%s) rejected: %r' % (src, e))
    x = construct(exit_func=f)
    if n < 4 and '*' not in ks and not isinstance(x, TypeError):
        out.append('exit function (%s), which cannot take the callable and three details: %r' % (src, x))
    if fits(f, 4) and x is not None:
        out.append('suitable exit function (%s) rejected: %r' % (src, x))
    for err in (e, x):
        if err is not None and not isinstance(err, TypeError):
            out.append('(%s): %r' % (src, err))
    return out, 2, (type(e), type(x))


def check_call(c):
    kind, src, body, args, kw = c
    f = function(src, kind, body)
    log = []

    def run(g):
        try:
            return ('value', g(*args, **kw))
        except BaseException as e:
            return ('raise', type(e), str(e))

    out = []
    f2 = f
    if kind == 'function':
        f.attr = 'custom'
        f.__doc__ = 'the doc'
    g = ContextualizeCall(f2, lambda x: log.append('enter'), lambda *a: log.append('exit'))
    want, got = run(f), run(g)
    if repr(want) != repr(got):
        out.append('%s(%s) called with %r %r: %r, the original gives %r' % (kind, src, args, kw, got, want))
    if log:
        out.append('a call without a context did %r' % (log,))
    for a in ('__name__', '__doc__', '__qualname__', 'attr', '__defaults__', '__self__', 'args', 'first', 'missing'):
        if a == '__doc__' and kind in ('instance', 'partial'):
            continue
        w, h = getattr(f, a, '(none)'), getattr(g, a, '(none)')
        if w != h:
            out.append('attribute %s is %r, of the original %r' % (a, h, w))
    if inspect.signature(f) != inspect.signature(g):
        out.append('signature %s, of the original %s' % (inspect.signature(g), inspect.signature(f)))
    return out, 2, (want[0],)


# ------------------------------------------------------------------ with blocks
ENTERS = ('default', 'value', 'none', 'raises')
EXITS = ('default', 'none', 'true', 'false', 'raises', 'truthy', 'four')
ERRORS = {'ValueError': ValueError, 'StopIteration': StopIteration, 'Boom': Boom}
STEPS = ('call', 'fail')            # a call, a call that raises (caught in the body)


class Block:
    """One wrapper and its log; the model of what has to happen is computed next to it."""

    def __init__(self, enter, exit, name, func):
        self.log = []
        self.name = name
        self.func = func
        self.enter, self.exit = enter, exit
        kw = {}
        if enter != 'default':
            kw['enter_func'] = self.do_enter
        if exit == 'four':
            kw['exit_func'] = lambda f, t, v, tb: self.do_exit(f, t, v, tb)
        elif exit != 'default':
            kw['exit_func'] = self.do_exit
        self.token = object()
        self.g = ContextualizeCall(func, **kw)

    def do_enter(self, f):
        self.log.append(('enter', f is self.func))
        if self.enter == 'raises':
            raise KeyError('enter')
        return self.token if self.enter == 'value' else None

    def do_exit(self, f, *d):
        self.log.append(('exit', f is self.func) + d[:2] + (len(d), d[2] is not None if len(d) > 2 else None))
        if self.exit == 'raises':
            raise KeyError('exit')
        return {'none': None, 'true': True, 'false': False, 'truthy': 'yes', 'four': False}[self.exit]


def check_blocks(c):
    """A sequence of with blocks on one wrapper, each with body steps and maybe an error."""
    enter, exit, layered, blocks = c
    calls = []

    def f(x):
        calls.append(x)
        if x == 'bad':
            raise LookupError('bad')
        return [x]

    inner = None
    if layered:
        inner = Block('value' if enter != 'value' else 'none', 'true' if exit != 'true' else 'false', 'inner', f)
        b = Block(enter, exit, 'outer', inner.g)
    else:
        b = Block(enter, exit, 'one', f)
    out = []
    for steps, error in blocks:
        err = ERRORS[error]('body') if error else None
        want_log, want_calls = [], []
        if enter != 'default':
            want_log.append(('enter', True))
        entered = enter != 'raises'
        if entered:
            want_calls = ['good' if s == 'call' else 'bad' for s in steps]
            if exit != 'default':
                want_log.append(('exit', True, type(err) if err else None, err, 3, err is not None))
        if not entered:
            want_end = ('KeyError', 'enter')
        elif exit == 'raises':
            want_end = ('KeyError', 'exit')
        elif err is not None and exit not in ('true', 'truthy'):
            want_end = err
        else:
            want_end = None
        want_as = {'default': b.func, 'value': b.token, 'none': None}.get(enter)
        b.log.clear()
        calls.clear()
        end = got_as = None
        try:
            with b.g as got_as:
                for s in steps:
                    try:
                        r = b.g('good' if s == 'call' else 'bad')
                        if r != ['good']:
                            out.append('call gave %r' % (r,))
                    except LookupError as e:
                        if s != 'fail' or str(e) != "bad":
                            out.append('call raised %r' % (e,))
                if err is not None:
                    raise err
        except BaseException as e:
            end = e
        if isinstance(want_end, tuple):
            same = type(end).__name__ == want_end[0] and end.args == (want_end[1],)
        else:
            same = end is want_end
        if not same:
            out.append('the block ended with %r, expected %r' % (end, want_end))
        if entered and got_as is not want_as:
            out.append('entering gave %r, expected %r' % (got_as, want_as))
        if b.log != want_log:
            out.append('enter and exit: %r, expected %r' % (b.log, want_log))
        if calls != want_calls:
            out.append('calls %r, expected %r' % (calls, want_calls))
        if inner and inner.log:
            out.append('the inner wrapper was entered: %r' % (inner.log,))
        if out:
            break
    return out, len(blocks) * 3, (enter, exit, layered)


class Inst:
    def __init__(self, ret):
        self.log = []
        self.ret = ret
        self.token = object()

    def __enter__(self):
        self.log.append('enter')
        return self.token

    def __exit__(self, *d):
        self.log.append(('exit',) + d[:2] + (len(d),))
        if self.ret == 'raises':
            raise KeyError('exit')
        return self.ret

    def act(self, x):
        self.log.append(('act', x))
        if x == 'bad':
            raise LookupError('bad')
        return (self, x)


class Sub(Inst):
    def act(self, x):
        return super().act(x)


def check_instance(c):
    cls, ret, blocks = c
    o, other = cls(ret), cls(ret)
    g = contextualize_with_instance(o.act)
    h = contextualize_with_instance(other.act)
    out = []
    if g.__self__ is not o or g.__name__ != 'act':
        out.append('the method attributes are not there')
    for steps, error in blocks:
        err = ERRORS[error]('body') if error else None
        o.log.clear()
        end = None
        try:
            with g as x:
                if x is not o.token:
                    out.append('entering gave %r' % (x,))
                for s in steps:
                    try:
                        r = g('good' if s == 'call' else 'bad')
                        if r != (o, 'good'):
                            out.append('call gave %r' % (r,))
                    except LookupError:
                        pass
                if err is not None:
                    raise err
        except BaseException as e:
            end = e
        want = ['enter'] + [('act', 'good' if s == 'call' else 'bad') for s in steps] + [('exit', type(err) if err else None, err, 3)]
        if o.log != want:
            out.append('the instance saw %r, expected %r' % (o.log, want))
        if ret == 'raises':
            if not (isinstance(end, KeyError) and end.args == ('exit',)):
                out.append('the block ended with %r' % (end,))
        elif end is not (None if ret else err):
            out.append('the block ended with %r, the error was %r' % (end, err))
        if out:
            break
    if other.log:
        out.append('another instance saw %r' % (other.log,))
    return out, 3 * len(blocks), (cls.__name__, ret)


def check_builtin(c):
    text, size = c
    f = io.StringIO(text)
    g = contextualize_with_instance(f.read)
    out = []
    with g as x:
        if x is not f or f.closed:
            out.append('entering gave %r' % (x,))
        r = g(size)
        if r != text[:size]:
            out.append('read gave %r' % (r,))
    if not f.closed:
        out.append('the file is open after the block')
    return out, 2, ()


def run(rep):
    n = rep.q(5, 6)
    cases(rep, 'every signature of an enter or exit function',
          [(k, ks, src) for ks, src in shapes(n) for k in ('function', 'instance', 'partial')
           if not (k != 'function' and src.split(',')[0].strip() in ('/',)) and not (k != 'function' and ('p' in ks or 'd' in ks))],
          check_validity)
    bad = [('callable', v) for v in (None, 1, 'f', [], object())] + [('enter', v) for v in (None, 1, 'f', [])] + [('exit', v) for v in (None, 1, 'f', [])]

    def check_bad(c):
        which, v = c
        try:
            if which == 'callable':
                ContextualizeCall(v)
            elif which == 'enter':
                ContextualizeCall(len, enter_func=v)
            else:
                ContextualizeCall(len, exit_func=v)
        except TypeError:
            return [], 1, which
        except Exception as e:
            return ['%s %r: %r' % (which, v, e)], 1, which
        return ['%s %r was accepted' % (which, v)], 1, which

    cases(rep, 'what is not callable', bad, check_bad)
    argss = [(), (1,), (1, 2), (None,)]
    kws = [{}, {'a0': 3}, {'a1': 3}, {'z': 4}]
    cs = []
    for ks, src in shapes(rep.q(2, 3)):
        names = ['a%d' % i for i in range(len(ks))]
        body = '[%s]' % ', '.join(names)
        for kind in ('function', 'instance', 'partial'):
            if kind != 'function' and ('p' in ks or 'd' in ks):
                continue
            for args in argss:
                for kw in kws:
                    cs.append((kind, src, body, args, kw))
                    if ks == 'P':
                        cs.append((kind, src, '1 // 0', args, kw))
                        cs.append((kind, src, '[].pop()', args, kw))
    cases(rep, 'every call', cs, check_call)
    bodies = [(st, e) for k in range(rep.q(3, 4)) for st in itertools.product(STEPS, repeat=k) for e in (None, 'ValueError', 'StopIteration', 'Boom')]
    short = [((), None), ((), 'ValueError'), (('call',), None), (('fail',), 'Boom')]
    seqs = [(b,) for b in bodies] + [(a, b) for a in short for b in bodies] + [(a, b, c) for a in short for b in short for c in short]
    cases(rep, 'with blocks', [(en, ex, lay, bl) for en in ENTERS for ex in EXITS for lay in (False, True) for bl in seqs], check_blocks)
    cases(rep, 'with blocks of a bound method', [(cl, r, bl) for cl in (Inst, Sub) for r in (None, True, False, 0, 'x', 'raises') for bl in seqs], check_instance)
    cases(rep, 'with a built-in method', [(t, k) for t in ('', 'ab') for k in (0, 1, 5)], check_builtin)
