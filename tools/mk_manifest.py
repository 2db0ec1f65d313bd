"""Writes MANIFEST.json from the table below (claimed = a check module mc/cNN.py exists)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCHED = 'stateless model checking of the real code: all thread schedules up to a preemption bound under a controlled scheduler'
STATEFUL = 'explicit-state model checking of the real lock: all interleavings, no preemption bound, states deduplicated'
HIST = 'explicit-state model checking of the real code: all operation histories up to a depth against a reference model'
ENUM = 'bounded exhaustive enumeration of environment behaviours and call histories of the real code against a reference model'
EXITS = 'exhaustive enumeration of the exit points of the real code: every listed program state ended in every listed way, each as a process of its own'
TRUST = (' Trusts CPython, the controlled primitives in mc/sched.py and the reference model in the check; '
         'says nothing beyond the stated bounds.')
TABLE = {
    'C01': (HIST, 'All operation histories up to the depth and key alphabet in the evidence, every query in every state.'),
    'C02': (HIST, 'All operation histories up to the depth in the evidence for every maxlen in it.'),
    'C03': (STATEFUL, 'All interleavings of the listed 2-4 thread programs at source-line granularity.'),
    'C04': (STATEFUL, 'All interleavings of the listed programs at source-line granularity.'),
    'C05': (SCHED, 'All schedules with at most 2 (3 thorough) preemptions at source-line granularity of the listed drivers.'),
    'C06': (SCHED, 'All schedules with the stated preemption bound for every listed combination of calls and options.'),
    'C07': (HIST, 'All histories of appends, drops and reads up to the depth in the evidence.'),
    'C08': (HIST, 'All range arguments and options over the listed contents and cursors, plus histories.'),
    'C09': (HIST, 'All histories of cursor operations on two readers up to the depth in the evidence.'),
    'C10': (SCHED, 'All schedules up to the preemption bound of consumers against a stream that ends.'),
    'C11': (SCHED, 'All schedules up to the preemption bound, virtual time.'),
    'C12': (SCHED, 'All start/stop histories up to the depth and all schedules up to the bound, virtual time.'),
    'C13': (SCHED, 'All schedules up to the bound of restart histories, virtual time.'),
    'C14': (SCHED, 'All fault placements in short scripts, with all schedules up to the bound.'),
    'C15': (SCHED, 'All histories/schedules up to the bound of ingestion against drops, for the listed window sizes.'),
    'C16': (SCHED, 'All open/close histories up to the depth, plus all schedules of concurrent closes up to the bound.'),
    'C17': (ENUM, 'All combinations of the listed wirings, scripts and bodies, with schedules up to the bound.'),
    'C18': (ENUM, 'All payloads, chunkings and encodings listed, against a stand-in transport.'),
    'C19': (ENUM, 'All listed callables, signatures and call/enter/exit histories.'),
    'C20': (ENUM, 'All read scripts and enter/exit histories up to the depth in the evidence.'),
    'C21': (SCHED, 'All schedules up to the bound of start/restart against queries.'),
    'C22': (SCHED, 'All listed configurations and scripts under the virtual clock, with schedules up to the bound.'),
    'C23': (HIST, 'All histories of config writes and reads up to the depth in the evidence.'),
    'C24': (ENUM, 'All template dicts and URL parts over the listed small alphabets.'),
    'C25': (ENUM, 'All combinations of the listed options and orders for pairs of streams and of readers, virtual time.'),
    'C26': (ENUM, 'All listed shapes of sources with all listed settings, and all proper subsets of the members, virtual time.'),
    'C27': (HIST, 'All histories up to the depth in the evidence for every listed kind of items and keys, and every listed way through a stream.'),
    'C28': (HIST, 'All histories up to the depth in the evidence, and all sequences of calls on running streams up to theirs (one schedule each), virtual time.'),
    'C29': (SCHED, 'All listed pairs and chains; all schedules up to the bound in the evidence (one schedule for the longer chains in quick), virtual time.'),
    'C31': (SCHED, 'All listed programs x moments of the interrupt (one per run, at moments at which everybody waits); all schedules up to the bound in the evidence, virtual time.'),
    'C32': (EXITS, 'All combinations of the listed states, sources and ways to end; real processes and threads, one uncontrolled schedule each.'),
    'C30': (SCHED, 'All listed things x programs; all schedules up to the bound in the evidence, virtual time.'),
}
NA = {}
props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    if os.path.exists(os.path.join(HERE, 'mc', p.lower() + '.py')) and p not in NA:
        t, n = TABLE[p]
        checks.append({'property': p, 'quick_cmd': './run %s quick' % p, 'thorough_cmd': './run %s thorough' % p,
                       'evidence_file': 'evidence/%s.json' % p, 'technique': t, 'level': 'model_checking',
                       'level_note': n + TRUST})
    else:
        na.append({'property': p, 'reason': NA.get(p, 'check not built yet')})
json.dump({'version': 1, 'setup_cmd': './setup', 'checks': checks, 'not_applicable': na,
           'notes': 'Every check imports the code from /repo\'s working tree (no build products are used) under /opt/venv/bin/python. '
                    'No hooks in /repo.'},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
