"""Deviation-bounded exhaustive exploration of schedules, plus process-parallel helpers."""
import gc
import os
import pickle
import signal
import sys
import tempfile
import traceback

from . import sched
from .sched import Execution, real_monotonic

NPROC = max(1, min(16, int(os.environ.get('VERIF_PROCS', os.cpu_count() or 1))))


class Stats:
    FIELDS = ('executions', 'transitions', 'points', 'pruned', 'capped', 'divergences', 'unreproducible')

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.states = set()
        self.outcomes = {}
        self.violations = []       # dicts
        self.by_cost = {}
        self.samples = []
        self.max_points = 0
        self.extra = {}

    def merge(self, o):
        for f in self.FIELDS:
            setattr(self, f, getattr(self, f) + getattr(o, f))
        self.states |= o.states
        for k, v in o.outcomes.items():
            self.outcomes[k] = self.outcomes.get(k, 0) + v
        self.violations += o.violations
        for k, v in o.by_cost.items():
            self.by_cost[k] = self.by_cost.get(k, 0) + v
        self.samples += o.samples
        self.max_points = max(self.max_points, o.max_points)
        for k, v in o.extra.items():
            self.extra[k] = self.extra.get(k, 0) + v


def thread_state(ex, h):
    """Canonical form of a whole execution: shared objects, harness state, every thread's frames and locals."""
    from .hist import canon
    frames = sys._current_frames()
    objs = [h.shared()]
    for t in ex.threads:
        objs.append((t.state, t.fresh, t.state == 'blocked' and ex._enabled(t), t.timed_out,
                     None if t.wake is None else round(t.wake - ex.now, 9)))
        if t.state == 'done':
            continue
        f = frames.get(t.ident)
        while f is not None:
            c = f.f_code
            if c.co_filename == sched.__file__:
                if not c.co_qualname.startswith(('Execution.', '_on_')):
                    objs.append((c.co_qualname, f.f_lasti))
                    objs.append({k: v for k, v in f.f_locals.items() if not isinstance(v, (Execution, sched.CT))})
                if c.co_qualname == 'Execution._boot':
                    break
            elif c.co_filename != __file__:
                objs.append((c.co_qualname, f.f_lasti))
                objs.append({k: v for k, v in f.f_locals.items() if v is not h and not isinstance(v, (Execution, sched.CT))})
            f = f.f_back
    return hash(canon(*objs))


def run_once(factory, cfg, dev, seen=None):
    """One execution of a fresh harness under the given deviations."""
    h = factory()
    cfg = dict(cfg)
    cfg.pop('unbounded', None)
    ex = Execution(None, dev, **cfg)
    if seen is not None:
        def visited(ex):
            k = thread_state(ex, h)
            if k in seen:
                return True
            seen.add(k)
            return False
        ex.statehash = visited
    ex.main = lambda: h.main(ex)
    ex.run()
    problems = []
    if ex.status in ('deadlock', 'livelock', 'horizon'):
        problems = h.stuck(ex) if hasattr(h, 'stuck') else ['%s: %s' % (ex.status, ex.status_info)]
    elif ex.status == 'done':
        for m in ex.threads:
            if m.exc is not None and m.pyobj is None:
                problems.append('unexpected %s in thread %s: %s' % (type(m.exc).__name__, m.name, m.exc))
                if os.environ.get('VERIF_DEBUG'):
                    traceback.print_exception(m.exc)
        if not problems:
            try:
                problems = list(h.check(ex))
            except Exception as e:
                problems = ['the oracle cannot interpret this execution: %s: %s' % (type(e).__name__, e)]
                if os.environ.get('VERIF_DEBUG'):
                    traceback.print_exc()
    outcome = getattr(h, 'outcome', None)
    return ex, h, problems, outcome


_gc_count = [0]


def _tidy():
    _gc_count[0] += 1
    if _gc_count[0] % 200 == 0:
        gc.collect()


class Explorer:
    """Explores one harness factory exhaustively up to cfg bound (preemptions + early wakes)."""

    def __init__(self, name, factory, *, bound, gran='line', deadline=None, max_violations=1, **cfg):
        self.name = name
        self.factory = factory
        self.bound = bound
        self.cfg = dict(cfg, gran=gran, bound=bound)
        self.deadline = deadline
        self.max_violations = max_violations
        self.st = Stats()
        self.unbounded = cfg.get('unbounded', False)      # every alternative is free; states visited before are cut
        self.seen = set() if self.unbounded else None
        if self.unbounded:
            self.bound = self.cfg['bound'] = 0

    isolated = False

    def _once(self, dev):
        if not self.isolated:
            return run_once(self.factory, self.cfg, dev, self.seen)
        def job(_):
            ex, h, problems, outcome = run_once(self.factory, self.cfg, dev)
            return Summary(ex), None, problems, repr(outcome)
        return fork_one(job)

    def _exec(self, dev, cost, st, out):
        ex, h, problems, outcome = self._once(dev)
        st.executions += 1
        st.transitions += ex.steps
        st.points += len(ex.points)
        st.max_points = max(st.max_points, len(ex.points))
        st.by_cost[cost] = st.by_cost.get(cost, 0) + 1
        first = ex.last_dev + 1
        for n, free, key in ex.points[max(0, first - 1):]:
            st.states.add(key)
        if ex.status == 'divergence':
            st.divergences += 1
            return
        if ex.status == 'pruned':
            st.pruned += 1
        o = repr(outcome)
        st.outcomes[o] = st.outcomes.get(o, 0) + 1
        if len(st.samples) < 2 and (cost == self.bound or not st.samples):
            st.samples.append({'harness': self.name, 'deviations': {str(k): v for k, v in dev.items()},
                               'switches': ex.switches[:12], 'outcome': o[:400]})
        if problems:
            # confirm that the schedule determines the result
            self.seen_saved, self.seen = self.seen, None
            again = self._once(dev)
            if again[2] == problems:
                st.violations.append({'harness': self.name, 'deviations': {str(k): v for k, v in dev.items()},
                                      'problems': problems[:5], 'events': [repr(e) for e in ex.events][-60:],
                                      'switches': ex.switches, 'cost': cost})
            else:
                third = self._once(dev)
                if third[2]:
                    st.violations.append({'harness': self.name, 'deviations': {str(k): v for k, v in dev.items()},
                                          'problems': (third[2] + ['(not reproduced identically)'])[:5], 'events': [],
                                          'switches': ex.switches, 'cost': cost})
                else:
                    st.unreproducible += 1
            self.seen = self.seen_saved
        # children
        for i in range(first, len(ex.points)):
            n, free, _ = ex.points[i]
            c = cost if free or self.unbounded else cost + 1
            if c > self.bound:
                continue
            for alt in range(1, n):
                d = dict(dev)
                d[i] = alt
                out.append((c, d))
        _tidy()

    def _drain(self, work, st, limit=None):
        """Process work items (cost, dev); stops when done, capped, violated, or len(work) >= limit."""
        buckets = [[] for _ in range(self.bound + 1)]
        for c, d in work:
            buckets[c].append(d)
        out = []
        while True:
            for c in range(self.bound + 1):
                if buckets[c]:
                    break
            else:
                return []
            dev = buckets[c].pop()
            out.clear()
            self._exec(dev, c, st, out)
            for c2, d2 in reversed(out):
                buckets[c2].append(d2)
            if len(st.violations) >= self.max_violations:
                return []
            if self.deadline is not None and real_monotonic() > self.deadline:
                left = sum(map(len, buckets))
                if left:
                    st.capped += 1
                    st.extra['unexplored'] = st.extra.get('unexplored', 0) + left
                return []
            if limit is not None and sum(map(len, buckets)) >= limit:
                return [(c, d) for c in range(self.bound + 1) for d in buckets[c]]

    def run(self, parallel=True):
        st = self._run(parallel)
        if (st.divergences or st.unreproducible) and not st.violations:
            # the code keeps state between executions (module level): give every execution a process of its own
            self.st = Stats()
            self.st.extra['isolated'] = 1
            self.isolated = True
            st = self._run(parallel)
        return st

    def _run(self, parallel):
        sched.monitor(self.cfg['gran'])
        work = [(0, {})]
        if not parallel or NPROC == 1 or self.unbounded:
            self._drain(work, self.st)
            return self.st
        work = self._drain(work, self.st, limit=40 * NPROC)
        if not work:
            return self.st

        def job(k):
            st = Stats()
            self._drain(work[k::NPROC], st)
            return st

        for st in fork_map(job, range(NPROC)):
            self.st.merge(st)
        return self.st


class Summary:
    def __init__(self, ex):
        for k in ('steps', 'points', 'last_dev', 'status', 'status_info', 'switches'):
            setattr(self, k, getattr(ex, k))
        self.events = [repr(e) for e in ex.events][-60:]


def fork_one(fn):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            with os.fdopen(w, 'wb') as f:
                pickle.dump(fn(None), f)
            code = 0
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data)


class WorkerDied(Exception):
    """args: message, traceback if the code under test raised it"""


def blame(e):
    """Does the traceback end in (or pass through) the code under test?"""
    from . import load
    root = os.path.realpath(load.REPO) + os.sep
    return any(os.path.realpath(fs.filename).startswith(root) for fs in traceback.extract_tb(e.__traceback__))


def fork_map(fn, items, nproc=None):
    """Run fn(item) for every item, in forked processes (one wave of nproc at a time, dynamically), results in order."""
    items = list(items)
    nproc = nproc or NPROC
    if nproc == 1 or len(items) == 1:
        return [fn(i) for i in items]
    tmp = tempfile.mkdtemp(prefix='verif-mc-')
    results = [None] * len(items)
    pids = {}
    nxt = 0
    failed = None
    try:
        while nxt < len(items) or pids:
            while nxt < len(items) and len(pids) < nproc and failed is None:
                path = os.path.join(tmp, str(nxt))
                sys.stdout.flush()
                sys.stderr.flush()
                pid = os.fork()
                if pid == 0:
                    code = 1
                    try:
                        r = fn(items[nxt])
                        with open(path, 'wb') as f:
                            pickle.dump(r, f)
                        code = 0
                    except BaseException as e:
                        traceback.print_exc()
                        if blame(e):
                            with open(path, 'wb') as f:
                                pickle.dump(WorkerDied('%s: %s' % (type(e).__name__, e), traceback.format_exc()), f)
                    finally:
                        sys.stdout.flush()
                        sys.stderr.flush()
                        os._exit(code)
                pids[pid] = (nxt, path)
                nxt += 1
            if not pids:
                break
            pid, status = os.wait()
            if pid not in pids:
                continue
            k, path = pids.pop(pid)
            if status != 0:
                failed = WorkerDied('worker %d died with status %r' % (k, status), None)
                if os.path.exists(path):
                    try:
                        with open(path, 'rb') as f:
                            failed = pickle.load(f)
                    except EOFError:
                        pass
                nxt = len(items)
            else:
                with open(path, 'rb') as f:
                    results[k] = pickle.load(f)
    finally:
        for pid in pids:
            try:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
            except OSError:
                pass
        for n in os.listdir(tmp):
            os.unlink(os.path.join(tmp, n))
        os.rmdir(tmp)
    if failed:
        raise failed
    return results
