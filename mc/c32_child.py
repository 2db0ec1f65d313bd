"""A program that uses streams and ends at a given point: child.py REPO STATE SOURCE EXIT HOLD  (run by c32)."""
import sys
repo, state, source, how, hold = sys.argv[1:6]
sys.path.insert(0, repo)
import threading                                                # noqa: E402
import time                                                     # noqa: E402
from stream2py import SourceReader, StreamBuffer, StreamSource  # noqa: E402
from stream2py.simply import mk_stream_buffer                   # noqa: E402


def say(x):
    sys.stdout.write(x + '\n')
    sys.stdout.flush()


class Body:
    n = 0

    def open(self):
        say('open')

    def read(self):
        self.n += 1
        if source == 'blocks' and self.n > 2:
            threading.Event().wait()
        if source == 'sleeps' and self.n > 2:
            time.sleep(1000)
        if source == 'fails' and self.n > 2:
            raise ValueError('gone')
        if source == 'items' and self.n > 5:
            time.sleep(0.01)
        return self.n if self.n < 3 or source in ('items', 'full') else None

    def close(self):
        say('close')

    info = {}

    def key(self, x):
        return x

    sleep_time_on_read_none_s = 1000 if source == 'long wait' else None


class Plain(Body, SourceReader):
    pass


class Shared(Body, StreamSource):
    pass


OPTS = dict(auto_drop=False, maxlen=3) if source == 'full' else {}


class Gone(Exception):
    pass


def leave():
    say('leaving')
    if how == 'exit':
        sys.exit(3)
    if how == 'raise':
        raise Gone
    if how == 'interrupt':
        raise KeyboardInterrupt
    if how == 'end' and not state.startswith('with'):
        return


def program():
    if state == 'made':
        sb = StreamBuffer(Plain(), **OPTS)
        yield sb
    elif state in ('started', 'reader', 'iterating', 'restarted', 'stopped', 'two', 'in a thread', 'waiting thread'):
        sb = StreamBuffer(Plain(), **OPTS)
        if state == 'in a thread':
            t = threading.Thread(target=sb.start)
            t.start()
            t.join()
        else:
            sb.start()
        held = [sb]
        if state == 'reader':
            r = sb.mk_reader()
            held += [r, r.read(blocking=True)]
        if state == 'iterating':
            for x in sb.mk_reader():
                held.append(x)
                break
        if state == 'waiting thread':
            r = sb.mk_reader()

            def wait():
                while r.read(blocking=True) is not None:
                    pass
            threading.Thread(target=wait, daemon=True).start()
            time.sleep(0.2)
        if state in ('stopped', 'restarted'):
            sb.stop()
        if state == 'restarted' and source not in ('blocks', 'sleeps'):
            sb.start()
        if state == 'two':
            held.append(StreamBuffer(Plain(), **OPTS))
            held[1].start()
        yield held
    elif state == 'with':
        with StreamBuffer(Plain(), **OPTS) as sb:
            sb.mk_reader().read(blocking=True)
            yield sb
    elif state == 'with wired':
        b = Body()
        with mk_stream_buffer(lambda o: b.read(), b.open, lambda o: b.close(), sleep_time_on_read_none_seconds=b.sleep_time_on_read_none_s, **OPTS) as sb:
            sb.mk_reader().read(blocking=True)
            yield sb
    elif state == 'with shared':
        s = Shared()
        if OPTS:
            s.configure_buffer(**OPTS)
        with s.open_reader() as r:
            r.read(blocking=True)
            yield s
    elif state == 'shared':
        s = Shared()
        if OPTS:
            s.configure_buffer(**OPTS)
        yield s, s.open_reader(), s.open_reader()
    else:
        raise AssertionError(state)


def main():
    g = program()
    held = next(g)
    try:
        leave()
    except BaseException as e:
        try:
            g.throw(e)
        finally:
            del g
        raise AssertionError
    for held in g:
        pass
    return held


if hold == 'global':
    KEPT = []
    G = program()
    KEPT.append(next(G))
    try:
        leave()
    except BaseException as e:
        G.throw(e)
    for KEPT[0] in G:
        pass
else:
    main()
