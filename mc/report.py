"""Collects what a check covered, writes the evidence file, prints the verdict. Also drives replays."""
import hashlib
import json
import os
import sys

from . import sched
from .explore import Explorer, NPROC, Stats, fork_map, run_once
from .sched import real_monotonic

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, 'known-findings.json')


class Violated(Exception):
    """Stops a check at its first unlisted violation."""


class Report:
    def __init__(self, pid, tier, seed, budget, replay=None):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = real_monotonic()
        self.deadline = self.t0 + budget
        self.replay = replay              # dict of a replay file, or None
        self.replay_result = None
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.harnesses = []
        self.violations = []
        self.known_hit = {}
        self.capped = []
        self.assumptions = []
        self.notes = []
        self.distinct_outcomes = 0
        self.known = load_known(pid)

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def q(self, quick, thorough):
        return thorough if self.tier == 'thorough' else quick

    def left(self):
        return self.deadline - real_monotonic()

    # ------------------------------------------------------------ schedule harnesses
    def explore(self, name, factory, *, bound, min_bound=None, parallel=True, **cfg):
        """Explore all schedules of one harness with <= bound deviations."""
        if self.replay is not None:
            if self.replay.get('harness') == name and 'deviations' in self.replay:
                sched.monitor(cfg.get('gran', 'line'))
                dev = {int(k): v for k, v in self.replay['deviations'].items()}
                cfg.setdefault('gran', 'line')
                ex, h, problems, outcome = run_once(factory, dict(cfg, bound=bound), dev)
                self.replay_result = {'status': ex.status, 'problems': problems, 'switches': ex.switches,
                                      'outcome': repr(outcome), 'events': [repr(e) for e in ex.events][-80:]}
            return None
        t = real_monotonic()
        e = Explorer(name, factory, bound=bound, deadline=self.deadline, **cfg)
        st = e.run(parallel)
        return self._explored(name, e.cfg, st, bound, real_monotonic() - t, None)

    def explore_many(self, group, harnesses, *, bound, **cfg):
        """Many small harnesses (name, factory), each explored by one process; one row in the evidence."""
        if self.replay is not None:
            for name, factory in harnesses:
                self.explore(group + ': ' + name, factory, bound=bound, **cfg)
            return
        harnesses = list(harnesses)
        t0 = real_monotonic()

        def job(idx):
            tot, viol, states, capped = Stats(), None, 0, []
            outs = 0
            for i in idx:
                name, factory = harnesses[i]
                e = Explorer(group + ': ' + name, factory, bound=bound, deadline=self.deadline, **cfg)
                st = e.run(False)
                states += len(st.states)
                outs += len(st.outcomes)
                st.states = set()
                st.outcomes = {}
                if st.capped:
                    capped.append(name)
                tot.merge(st)
                if st.violations or st.divergences or st.unreproducible:
                    break
            tot.samples = tot.samples[:1]
            return tot, states, outs, capped

        k = min(len(harnesses), 3 * NPROC)
        tot, states, outs, capped = Stats(), 0, 0, []
        for a, b, c, d in fork_map(job, [range(j, len(harnesses), k) for j in range(k)]):
            tot.merge(a)
            states += b
            outs += c
            capped += d
        self.states += states
        self.transitions += tot.transitions
        self.traces += tot.executions
        self.distinct_outcomes += outs
        self.samples += tot.samples[:1]
        self.capped += [group + ': ' + n for n in capped]
        self.harnesses.append({'harness': group, 'harnesses': len(harnesses), 'preemption_bound': bound,
                               'granularity': cfg.get('gran', 'line'), 'schedules': tot.executions,
                               'schedules_by_deviations': {str(k): v for k, v in sorted(tot.by_cost.items())},
                               'choice_points_max': tot.max_points, 'distinct_locations': states,
                               'distinct_outcomes': outs, 'complete': not capped,
                               'wall_s': round(real_monotonic() - t0, 2)})
        if tot.divergences and not tot.violations:
            raise RuntimeError('replaying a schedule prefix diverged in %s' % group)
        if tot.unreproducible and not tot.violations:
            raise RuntimeError('a failure did not reproduce under its own schedule in %s' % group)
        for v in sorted(tot.violations, key=lambda v: (v['cost'], len(v['deviations']))):
            self.violation(v)

    def stateful(self, harnesses, **cfg):
        """harnesses: list of (name, factory). All interleavings of each (no preemption bound), visited states cut."""
        if self.replay is not None:
            for name, factory in harnesses:
                self.explore(name, factory, bound=0, **cfg)
            return

        def job(nf):
            t = real_monotonic()
            e = Explorer(nf[0], nf[1], bound=0, deadline=self.deadline, unbounded=True, **cfg)
            st = e.run(False)
            return e.cfg, st, real_monotonic() - t, len(e.seen)

        for (name, _), (ecfg, st, wall, n) in zip(harnesses, fork_map(job, harnesses)):
            self._explored(name, ecfg, st, None, wall, n)

    def _explored(self, name, ecfg, st, bound, wall, nstates):
        if nstates is None:
            nstates = len(st.states)
        self.states += nstates
        self.transitions += st.transitions
        self.traces += st.executions
        self.distinct_outcomes += len(st.outcomes)
        self.samples += st.samples[:1]
        row = {'harness': name, 'preemption_bound': 'none' if bound is None else bound, 'granularity': ecfg['gran'], 'schedules': st.executions,
               'schedules_by_deviations': {str(k): v for k, v in sorted(st.by_cost.items())},
               'choice_points_max': st.max_points, 'distinct_states' if bound is None else 'distinct_locations': nstates,
               'distinct_outcomes': len(st.outcomes), 'complete': not st.capped,
               'wall_s': round(wall, 2)}
        if st.capped:
            row['unexplored_prefixes'] = st.extra.get('unexplored', 0)
            self.capped.append(name)
        if st.pruned:
            row['pruned_by_state'] = st.pruned
        if st.extra.get('isolated'):
            row['one_process_per_execution'] = True
        if st.divergences and not st.violations:
            row['divergences'] = st.divergences
            raise RuntimeError('replaying a schedule prefix diverged in %s' % name)
        if st.unreproducible and not st.violations:
            row['unreproducible'] = st.unreproducible
            raise RuntimeError('a failure did not reproduce under its own schedule in %s' % name)
        self.harnesses.append(row)
        for v in st.violations:
            self.violation(v)
        return st

    # ------------------------------------------------------------ other enumerations
    def count(self, name, *, states, transitions, traces, samples=(), complete=True, **info):
        self.states += states
        self.transitions += transitions
        self.traces += traces
        self.samples += list(samples)
        if not complete:
            self.capped.append(name)
        self.harnesses.append(dict({'harness': name, 'states': states, 'transitions': transitions, 'traces': traces,
                                    'complete': complete}, **info))

    def violation(self, v):
        """v: dict with 'harness', 'problems' and what is needed to replay it."""
        for k in self.known:
            if k['harness'] == v['harness'] and k['match'] in ' '.join(v['problems']):
                self.known_hit.setdefault(k['what'], v)
                return
        self.violations.append(v)
        raise Violated()

    # ------------------------------------------------------------ the end
    def evidence(self):
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.traces,
               'distinct_outcomes': self.distinct_outcomes,
               'samples': self.samples[:6], 'exhaustive': not self.capped and not self.violations,
               'capped': self.capped, 'harnesses': self.harnesses,
               'rule': 'states: distinct vectors of thread locations (schedule harnesses) or canonical states (history '
                       'harnesses); transitions: executed scheduling steps or operations; traces: complete executions of '
                       'the real code compared with the oracle'}
        if self.notes:
            cov['notes'] = self.notes
        return {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking', 'coverage': cov,
                'assumptions': self.assumptions, 'wall_s': round(real_monotonic() - self.t0, 2),
                'violations': len(self.violations)}

    def finish(self):
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        path = os.path.join(VERIF, 'evidence', self.pid + '.json')
        with open(path + '.tmp', 'w') as f:
            json.dump(self.evidence(), f, indent=1, default=repr)
        os.replace(path + '.tmp', path)
        for what, v in self.known_hit.items():
            print('KNOWN-FINDING: property=%s %s' % (self.pid, what))
        code = 0
        for v in self.violations:
            data = dict(v, property=self.pid, tier=self.tier)
            text = json.dumps(data, indent=1, default=repr)
            d = os.path.join(VERIF, 'replays')
            os.makedirs(d, exist_ok=True)
            rp = os.path.join(d, '%s-%s.json' % (self.pid, hashlib.sha1(text.encode()).hexdigest()[:10]))
            with open(rp, 'w') as f:
                f.write(text)
            print('  in %s:' % v['harness'])
            for p in v['problems'][:5]:
                print('    ' + str(p)[:1500])
            print('VIOLATION property=%s replay=%s' % (self.pid, os.path.relpath(rp, VERIF)))
            code = 1
        if not code:
            print('%s %s: held on %d executions (%d states, %d transitions%s) in %.1f s' % (
                self.pid, self.tier, self.traces, self.states, self.transitions,
                ', capped: ' + ', '.join(self.capped) if self.capped else '', real_monotonic() - self.t0))
        sys.stdout.flush()
        return code


def load_known(pid):
    try:
        with open(KNOWN) as f:
            data = json.load(f)
    except FileNotFoundError:
        return []
    return [k for k in data.get('findings', []) if k['property'] == pid]
