"""Explicit-state search over operation histories of real objects, each state being the history that reaches it.

A system class offers:
    ops()        operations enabled here (JSON-able tuples), simplest first
    apply(op)    performs it on the implementation and on the model; list of problems
    check()      invariants and queries in this state; list of problems (must not change the state)
    canon()      hashable: model state plus every implementation attribute (see canon below)
"""
import collections
import traceback
import types

from . import sched
from .explore import NPROC, blame, fork_map
from .sched import Hang, real_monotonic, solo_reset

_ATOM = (int, float, complex, str, bytes, bool, type(None), type(Ellipsis))


def canon(*objs):
    """A hashable deep canonical form: all attributes, containers in order, aliasing of mutable objects preserved."""
    memo = {}
    keep = []

    def go(o):
        if isinstance(o, _ATOM):
            return (type(o).__name__, o) if isinstance(o, (bool, float, complex)) else o
        if isinstance(o, (types.FunctionType, types.BuiltinFunctionType, type, types.MethodType)):
            q = getattr(o, '__qualname__', repr(o))
            cells = getattr(o, '__closure__', None)
            if cells and id(o) not in memo:
                memo[id(o)] = len(memo)
                keep.append(o)
                return ('fn', q, tuple(go(c.cell_contents) for c in cells))
            return ('fn', q)
        if getattr(type(o), '_opaque', False):
            return ('opaque', getattr(o, 'tid', None))
        if id(o) in memo:
            return ('ref', memo[id(o)])
        memo[id(o)] = len(memo)
        keep.append(o)
        n = type(o).__name__
        if isinstance(o, (list, tuple, collections.deque)):
            r = (n, tuple(go(x) for x in o))
            if isinstance(o, collections.deque):
                r += (o.maxlen,)
            d = getattr(o, '__dict__', None)
            return r + (go(d),) if d else r
        if isinstance(o, dict):
            return (n, tuple((go(k), go(v)) for k, v in o.items()))
        if isinstance(o, (set, frozenset)):
            return (n, tuple(sorted(map(repr, o))))
        d = getattr(o, '__dict__', None)
        r = (n,)
        if d is not None:
            r += tuple((k, go(v)) for k, v in sorted(d.items()))
        for c in type(o).__mro__:
            for s in getattr(c, '__slots__', ()) or ():
                if isinstance(s, str) and hasattr(o, s):
                    r += ((s, go(getattr(o, s))),)
        return r

    return tuple(go(o) for o in objs)


def guarded(fn, *a):
    """(value, problems): solo hangs and unexpected exceptions become problems."""
    try:
        return fn(*a), []
    except Hang as e:
        return None, ['hangs: %s' % e]
    except Exception as e:
        if isinstance(e, RecursionError) or blame(e):
            at = traceback.extract_tb(e.__traceback__)[-1]
            return None, ['unexpected %s: %s (%s:%s)' % (type(e).__name__, e, at.filename.split('/')[-1], at.lineno)]
        if isinstance(e, (NameError, ImportError)):
            raise
        at = traceback.extract_tb(e.__traceback__)[-1]
        return None, ['the oracle cannot interpret what happened: %s: %s (%s:%s)' % (type(e).__name__, e, at.filename.split('/')[-1], at.lineno)]


def replay(make, hist):
    solo_reset()
    s = make()
    for o in hist:
        if o == QUERY:
            guarded(s.check)
        else:
            s.apply(o)
        sched._Solo.lines = 0
    return s


QUERY = ('?',)       # all queries of check(), as an operation: the implementation may cache what they compute


def one(make, hist, o):
    """Replays hist, applies o with checks. -> (system, problems)"""
    s = replay(make, hist)
    p = []
    if o != QUERY:
        r, p = guarded(s.apply, o)
        p = list(r or []) + p
        sched._Solo.lines = 0
    if not p:
        r, p = guarded(s.check)
        p = list(r or []) + p
    return s, p


def search(name, make, depth, deadline, parallel, max_states=None):
    """Breadth-first search; -> result dict."""
    t = real_monotonic()
    solo_reset()
    s = make()
    r, p = guarded(s.check)
    p = list(r or []) + p
    res = dict(states=1, transitions=0, complete=True, depth_completed=0, depth_asked=depth, states_per_depth=[1],
               fixpoint=False, bad=None, longest=())
    if p:
        res['bad'] = {'harness': name, 'history': [], 'problems': p}
        return res
    seen = {hash(s.canon())}
    frontier = [()]

    def job(hists):
        out = []
        n = 0
        mine = set()
        for h in hists:
            if real_monotonic() > deadline:
                return out, n, False, None
            for o in list(replay(make, h).ops()) + [QUERY]:
                s, p = one(make, h, o)
                n += 1
                if p:
                    s2, p2 = one(make, h, o)
                    return out, n, True, {'harness': name, 'history': list(h) + [o],
                                          'problems': p + ([] if p2 else ['(depends on what ran before)'])}
                k = hash(s.canon())
                if k not in seen and k not in mine:
                    mine.add(k)
                    out.append((k, h + (o,)))
        return out, n, True, None

    for d in range(depth):
        if not frontier:
            break
        if parallel and len(frontier) >= 32:
            parts = fork_map(job, [frontier[k::NPROC * 2] for k in range(NPROC * 2)])
        else:
            parts = [job(frontier)]
        nxt = []
        for out, n, ok, v in parts:
            res['transitions'] += n
            res['complete'] = res['complete'] and ok
        bad = [v for _, _, _, v in parts if v]
        if bad:
            res['bad'] = min(bad, key=lambda v: (len(v['history']), repr(v['history'])))
            break
        for out, n, ok, v in parts:
            for k, h in out:
                if k not in seen:
                    seen.add(k)
                    nxt.append(h)
        nxt.sort(key=repr)
        res['states_per_depth'].append(len(nxt))
        if not res['complete']:
            break
        res['depth_completed'] = d + 1
        if nxt:
            res['longest'] = nxt[-1]
        frontier = nxt
        if max_states and len(seen) > max_states and d + 1 < depth:
            res['complete'] = False
            break
    res['states'] = len(seen)
    res['fixpoint'] = not frontier and res['complete']
    res['wall_s'] = round(real_monotonic() - t, 2)
    return res


def _replay(rep, name, make):
    if rep.replay.get('harness') == name and 'history' in rep.replay:
        sched.monitor('sync')
        h = detuple(rep.replay['history'])
        problems = []
        for i in range(len(h)):
            s, p = one(make, h[:i], h[i])
            problems += ['after %r: %s' % (h[:i + 1], x) for x in p]
            if p:
                break
        rep.replay_result = {'problems': problems}


def _record(rep, name, res):
    bad, longest = res.pop('bad'), res.pop('longest')
    rep.count(name, states=res.pop('states'), transitions=res['transitions'], traces=res.pop('transitions'),
              complete=res.pop('complete'), samples=[{'harness': name, 'history': [repr(o) for o in longest]}], **res)
    return bad


def bfs(rep, name, make, depth, **kw):
    """Explores all histories up to `depth`, merging states with equal canonical forms."""
    if rep.replay is not None:
        return _replay(rep, name, make)
    sched.monitor('sync')
    bad = _record(rep, name, search(name, make, depth, rep.deadline, True, **kw))
    if bad:
        rep.violation(bad)


def bfs_many(rep, harnesses):
    """harnesses: list of (name, make, depth), each searched by one process."""
    if rep.replay is not None:
        for name, make, _ in harnesses:
            _replay(rep, name, make)
        return
    sched.monitor('sync')
    bads = []
    for h, res in zip(harnesses, fork_map(lambda h: search(h[0], h[1], h[2], rep.deadline, False), harnesses)):
        bad = _record(rep, h[0], res)
        if bad:
            bads.append(bad)
    for bad in sorted(bads, key=lambda v: (len(v['history']), repr(v['history']))):
        rep.violation(bad)


def detuple(x):
    """JSON lists back to tuples."""
    return [_tup(o) for o in x]


def _tup(o):
    return tuple(_tup(i) for i in o) if isinstance(o, list) else o


def cases(rep, name, items, check, *, state=lambda c: repr(c), chunk=None):
    """Exhaustive enumeration of independent cases. check(case) -> (problems, n_transitions, outcome)."""
    if rep.replay is not None:
        if rep.replay.get('harness') == name and 'case' in rep.replay:
            sched.monitor('sync')
            want = rep.replay['case']
            for c in items:
                if repr(c) == want:
                    solo_reset()
                    r, p = guarded(check, c)
                    rep.replay_result = {'problems': (list(r[0]) if r else []) + p}
                    return
        return
    sched.monitor('sync')
    t = real_monotonic()
    items = list(items)
    if not items:
        raise RuntimeError('no cases in %s' % name)

    def job(idx):
        n = tr = 0
        outs = set()
        for i in idx:
            if real_monotonic() > rep.deadline:
                return n, tr, outs, False, None
            c = items[i]
            solo_reset()
            r, p = guarded(check, c)
            if r is None:
                r = ((), 0, None)
            p = list(r[0]) + p
            n += 1
            tr += r[1]
            outs.add(repr(r[2]))
            if p:
                return n, tr, outs, True, {'harness': name, 'case': repr(c), 'index': i, 'problems': p}
        return n, tr, outs, True, None

    k = NPROC * 2 if len(items) >= 64 else 1
    res = fork_map(job, [range(j, len(items), k) for j in range(k)])
    outs = set().union(*[r[2] for r in res])
    n, tr = sum(r[0] for r in res), sum(r[1] for r in res)
    complete = all(r[3] for r in res)
    rep.distinct_outcomes += len(outs)
    rep.count(name, states=len({state(c) for c in items}), transitions=tr, traces=n, complete=complete,
              samples=[{'harness': name, 'case': repr(items[len(items) // 2])[:600]}], distinct_outcomes=len(outs),
              wall_s=round(real_monotonic() - t, 2))
    bad = sorted([r[4] for r in res if r[4]], key=lambda v: v['index'])
    for v in bad:
        rep.violation(v)
