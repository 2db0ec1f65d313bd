"""C12: sources are opened, read and closed in a strict discipline."""
import itertools

from .life import Life, Quit


class Discipline(Life):
    def check(self, s):
        self.outcome = self.summary()
        out = self.discipline()
        for c in self.calls:
            if c.op[0] in ('start', 'enter', 'with', 'broken') and c.res != 'ok':
                out.append('%r at %s' % (c, c.t0))
        return out


START, STOP, NAP = ('start',), ('stop',), ('sleep', 0.35)
SOURCES = {'data': [1, 2, 3, 4], 'none': [], 'short reads': [('delay', 0.6, k) for k in range(1, 9)],
           'slow reads': [('delay', 1.3, k) for k in range(1, 9)],
           'very slow reads': [('delay', 4.5, k) for k in range(1, 4)], 'one, then late': [1, ('delay', 2.4, 2), ('delay', 2.4, None), 3],
           'ends': [1, 2, ('raise', 'x')], 'ends late': [1, ('delay', 1.7, ('raise', 'x'))]}


def histories(depth):
    for n in range(1, depth + 1):
        for h in itertools.product((START, STOP, NAP, ('with',), ('with', NAP), ('with', START), ('with', STOP)), repeat=n):
            if h[0] in (STOP, NAP) or h[-1] == NAP:
                continue
            yield h


def run(rep):
    hs = [('%s; %s' % (n, ' '.join(map(str, h))), lambda sc=sc, h=h: Discipline([sc], [h]))
          for n, sc in SOURCES.items() for h in histories(rep.q(3, 4))]
    rep.explore_many('one user', hs, bound=rep.q(1, 2), gran='sync', max_time=400)
    hs = []
    for n in ('data', 'none', 'slow reads', 'ends late'):
        for a in ([START], [START, STOP], [START, START], [START, STOP, START], [('with', NAP)]):
            for b in ([STOP], [START], [STOP, START], [START, STOP]):
                if a == [START] and b == [STOP]:
                    b = [NAP, STOP]
                hs.append(('%s; %s | %s' % (n, a, b), lambda n=n, a=a, b=b: TwoUsers([SOURCES[n]], [a, b])))
    rep.explore_many('two users', hs, bound=rep.q(1, 2), gran='sync', max_time=400)
    # blocks left by an error
    hs = [('%s; %s' % (n, [getattr(x, '__name__', x) for o in h for x in o]), lambda sc=sc, h=h: Discipline([sc], [h]))
          for n, sc in SOURCES.items() for e in (KeyError, Quit, GeneratorExit, StopIteration)
          for h in ([('broken', e)], [('broken', e, NAP)], [('broken', e, NAP), ('broken', e, NAP)], [('broken', e), START, NAP, STOP],
                    [('broken', e, STOP)], [('broken', e, START, NAP)], [START, NAP, ('broken', e, NAP)])]
    rep.explore_many('blocks left by an error', hs, bound=rep.q(0, 1), gran='sync', max_time=400)
    # many sessions
    hs = [('%s; %s, %d times' % (n, ' '.join(map(str, h)), k), lambda n=n, h=h, k=k: Discipline([SOURCES[n]], [h * k]))
          for n in ('none', 'data', 'ends', 'slow reads') for h in ([START, NAP, STOP], [START, NAP], [START, STOP], [START], [('with', NAP)])
          for k in (9, 12)]
    rep.explore_many('many sessions', hs, bound=0, gran='sync', max_time=4000)
    # every polling interval, including none
    hs = [('%s; sleep %s; %s' % (n, sl, h), lambda n=n, sl=sl, h=h: Discipline([SOURCES[n]], [h], sleep=sl))
          for n in ('none', 'data', 'ends') for sl in (0.05, 0.999, 1, 5, 100)
          for h in ([START, NAP, STOP], [START, NAP, START, NAP, STOP], [START, STOP, START], [('with', NAP), START])]
    rep.explore_many('polling intervals', hs, bound=rep.q(1, 2), gran='sync', max_time=1000)
    for n in ('data', 'slow reads'):
        rep.explore('line granularity, ' + n, lambda n=n: Discipline([SOURCES[n]], [[START, NAP, START, STOP]]), bound=rep.q(1, 2), max_time=400)


class TwoUsers(Discipline):
    """The stream has been started once, so both users may stop it."""

    def prepare(self):
        self.call(0, ('start',))
        self.call(0, ('sleep', 0.1))
