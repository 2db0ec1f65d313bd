"""C09: cursors move only on successful non-peeking calls, and only the caller's own."""
import itertools

from .c07 import SCHEMES, Reading
from .hist import bfs_many
from .ref import op

B = (False, True)


def calls(scheme):
    keyfn, key, items, between = SCHEMES[scheme]
    ks = [key(x) for x in items]
    bt = [key(x) for x in between]
    out = []
    for peek, ig in itertools.product(B, B):
        kw = dict(peek=peek, ignore=ig)
        out.append(op('read', **kw))
        out.append(op('read', n=2, strict=True, **kw))
        out.append(op('nextm', n=3, **kw))
        for new in B:
            out.append(op('tail', only_new=new, **kw))
            out.append(op('range', ks[1], ks[2], only_new=new, **kw))
            out.append(op('range', ks[3], ks[0], only_new=new, **kw))          # always empty
            out.append(op('range', ks[0], ks[3], 2, only_new=new, stop_ge=True, **kw))
        out.append(op('range', bt[0], bt[1], start_le=True, stop_ge=True, **kw))
    out += [op('head'), op('head', peek=True), op('next'), op('iter'), op('read', blocking=True), op('del'),
            op('set', 0), op('set', 2), op('set', -1), op('set', -2), op('set', -3)]
    if keyfn is not None:
        out.append(op('setbad'))
    return out


def run(rep):
    hs = []
    for s in SCHEMES:
        m = calls(s)
        hs.append(('one reader, %s keys' % s, lambda s=s, m=m: Reading(s, [{}], m, 3, rep.q(4, 5)), rep.q(7, 40)))
        hs.append(('peeking reader, %s keys' % s, lambda s=s, m=m: Reading(s, [dict(peek=True, read_size=2)], m, 2, 4), rep.q(7, 40)))
        few = m[::2] + m[-12:]
        hs.append(('two readers, %s keys' % s, lambda s=s, m=few: Reading(s, [{}, dict(ignore_no_item_found=True)], m, 3, rep.q(3, 4)),
                   rep.q(5, 40)))
        tiny = [op('read', ignore=True), op('tail', ignore=True), op('range', *[SCHEMES[s][1](SCHEMES[s][2][i]) for i in (1, 2)], ignore=True),
                op('head'), op('read', n=2, ignore=True, peek=True), op('del'), op('set', -1)]
        hs.append(('three readers, %s keys' % s, lambda s=s, m=tiny: Reading(s, [{}, {}, dict(read_size=2)], m, 2, 3), rep.q(4, 10)))
    bfs_many(rep, hs)
