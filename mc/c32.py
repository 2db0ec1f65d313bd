"""C32: a program that uses streams can end at any point. Real processes, real threads."""
import itertools
import os
import shutil
import signal
import sys
import tempfile

from . import hist, load

CHILD = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'c32_child.py')
STATES = ('made', 'started', 'reader', 'iterating', 'restarted', 'stopped', 'two', 'in a thread', 'waiting thread', 'with', 'with wired', 'with shared', 'shared')
SOURCES = ('items', 'silent', 'long wait', 'full', 'fails', 'blocks', 'sleeps')
EXITS = {'end': 0, 'exit': 3, 'raise': 1, 'interrupt': -signal.SIGINT}
HOLDS = ('local', 'global')
LIMIT = 40


def program(case):
    """All ways to end one program, side by side: (problems, number of processes, outcomes)."""
    state, source = case
    d = tempfile.mkdtemp(prefix='verif-c32-')
    try:
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX='/nonexistent/verif-no-pycache')
        runs = []
        for how, hold in itertools.product(EXITS, HOLDS):
            out = os.path.join(d, '%s-%s' % (how, hold))
            io = [(os.POSIX_SPAWN_OPEN, 0, os.devnull, os.O_RDONLY, 0)]
            io += [(os.POSIX_SPAWN_OPEN, fd, out + ext, os.O_WRONLY | os.O_CREAT, 0o600) for fd, ext in ((1, '.out'), (2, '.err'))]
            argv = ['timeout', '-s', 'KILL', str(LIMIT), sys.executable, '-W', 'ignore', CHILD, load.REPO, state, source, how, hold]
            runs.append((how, hold, out, os.posix_spawnp(argv[0], argv, env, file_actions=io)))
        problems, outs = [], []
        for how, hold, out, pid in runs:
            rc = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
            said = open(out + '.out').read().split()
            err = open(out + '.err').read()
            where = 'ended by %s, stream kept in a %s: ' % (how, hold)
            outs.append((rc, tuple(said)))
            want = EXITS[how]
            if rc == 137 or rc == -signal.SIGKILL:
                problems.append(where + 'still running %d s later (%s)' % (LIMIT, ' '.join(said)))
            elif rc != want and not (want < 0 and rc == 128 - want):
                problems.append(where + 'exit status %d instead of %d: %s' % (rc, want, err[-300:]))
            elif state.startswith('with') and source not in ('blocks', 'sleeps') and (said.count('open'), said.count('close')) != (1, 1):
                problems.append(where + 'the source was: %s' % ' '.join(said))
            elif 'Fatal Python error' in err:
                problems.append(where + err[-300:])
            if state == 'made' and 'open' in said:
                problems.append(where + 'opened without a start')
        return problems, len(runs), outs
    finally:
        shutil.rmtree(d)


def run(rep):
    hist.cases(rep, 'programs', itertools.product(STATES, SOURCES), program)
