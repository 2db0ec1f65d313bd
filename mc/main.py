"""run ID [quick|thorough]  |  run --replay FILE"""
import importlib
import json
import os
import sys
import traceback

from . import load, sched
from .explore import WorkerDied, blame
from .report import Report, Violated

BUDGET = {'quick': 150, 'thorough': 3000}


def main(argv):
    sys.setrecursionlimit(5000)
    replay = None
    if argv and argv[0] == '--replay':
        with open(argv[1]) as f:
            replay = json.load(f)
        pid, tier = replay['property'], replay['tier']
    else:
        pid = argv[0]
        tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in BUDGET:
        tier = 'quick'
    budget = float(os.environ.get('VERIF_BUDGET', BUDGET[tier]))
    rep = Report(pid, tier, int(os.environ.get('VERIF_SEED', '1') or 1), budget, replay)
    try:
        load.load()
        mod = importlib.import_module('.' + pid.lower(), __package__)
        mod.run(rep)
    except Violated:
        pass
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as e:
        died = isinstance(e, WorkerDied) and e.args[1]
        if died or blame(e) or isinstance(e, ImportError):
            if not died:
                traceback.print_exc(file=sys.stdout)
            try:
                rep.violation({'harness': 'outside any harness', 'problems': [
                    'the code under test raised unexpectedly: %s' % (e.args[0] if died else '%s: %s' % (type(e).__name__, e))],
                    'traceback': died or traceback.format_exc()})
            except Violated:
                pass
        else:
            raise
    if replay is not None:
        r = rep.replay_result
        if r is None:
            print('no harness %r in %s' % (replay.get('harness'), pid))
            return 2
        print(json.dumps(r, indent=1, default=repr))
        if r['problems']:
            print('VIOLATION property=%s replay=%s' % (pid, argv[1]))
            return 1
        print('the replayed execution satisfies the property')
        return 0
    return rep.finish()


if __name__ == '__main__':
    try:
        code = main(sys.argv[1:])
    except SystemExit as e:
        code = e.code or 0
    except BaseException:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)          # interpreter shutdown would wait for the (replaced) threading machinery
