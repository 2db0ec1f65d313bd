"""Scripted environment: sources whose every answer is decided by the harness, with an event log."""
from . import load, sched

stream2py = load.load()
from stream2py import StreamBuffer, BufferReader, SourceReader  # noqa: E402


class Fault(Exception):
    """The fault injected by a script."""


class StreamFault(Fault):
    pass


def K(x):
    return x[0]


class CloseFault(Fault):
    """A close that fails."""


class Item(tuple):
    """(key, session); every other one is falsy, as real data may be."""
    __slots__ = ()

    def __bool__(self):
        return self[0] % 2 == 1


class ScriptSource(SourceReader):
    """sessions: list of scripts (the last one is reused); a script is a list of steps:
       ('item', key)            return (key, session)          (an int is short for it)
       None                     return None
       ('delay', dt, step)      the read takes dt virtual seconds, then does step
       ('raise', text)          the read raises
       ('gate', name)           the read waits until the harness opens the gate, then goes on with the next step
       After its end a script returns None forever.
    """
    sleep_cfg = None

    def __init__(self, sessions, ex=None, *, open_faults=(), info_faults=(), close_faults=(), key_faults=(), sleep=None,
                 point_in_read=True, open_delay=0, fault=StreamFault, same_info=None):
        self.sessions = sessions
        self.ex = ex
        self.sleep_cfg = sleep
        self.session = 0              # number of opens attempted
        self.pos = 0
        self.log = []
        self.gates = set()
        self.waiting_gate = None
        self.open_faults = set(open_faults)      # session numbers (1-based) whose open raises
        self.info_faults = set(info_faults)
        self.close_faults = set(close_faults)
        self.key_faults = set(key_faults)        # item keys whose key computation raises
        self.returned = []            # items returned by read, in order (session, item)
        self.completed = 0            # how many of them are known to have been processed (next read / close entered)
        self.is_open = False
        self.in_read = 0
        self.point_in_read = point_in_read
        self.open_delay = open_delay
        self.fault = fault            # the class of every exception raised here
        self.same_info = same_info    # the info, if it is the same for all sessions
        self.reads_none = 0

    def _ev(self, kind, *a):
        s = sched.ACTIVE
        self.log.append((kind, self.session) + a + ((round(s.now, 6), s.current.name) if s else (0.0, 'solo')))

    def _pt(self):
        s = sched.ACTIVE
        if s is not None and self.point_in_read:
            s.sync()

    def open(self):
        self.session += 1
        self.pos = 0
        self._ev('open-enter')
        self._pt()
        if self.open_delay:
            sched.v_sleep(self.open_delay)
        if self.session in self.open_faults:
            self._ev('open-fault')
            raise self.fault('open')
        self.is_open = True
        self._ev('open')

    @property
    def info(self):
        self._ev('info')
        if self.session in self.info_faults:
            self._ev('info-fault')
            raise self.fault('info')
        return {'session': self.session} if self.same_info is None else self.same_info

    @property
    def sleep_time_on_read_none_s(self):
        return self.sleep_cfg

    def script(self):
        i = min(self.session, len(self.sessions)) - 1
        return self.sessions[i]

    def read(self):
        self.completed = len(self.returned)
        sess = self.session
        self._ev('read', self.in_read, self.is_open)
        self.in_read += 1
        try:
            self._pt()
            while True:
                sc = self.script()
                if self.pos >= len(sc):
                    self._ev('none-end')
                    self.reads_none += 1
                    return None
                step = sc[self.pos]
                self.pos += 1
                while isinstance(step, tuple) and step[0] == 'delay':
                    if step[1]:
                        sched.v_sleep(step[1])
                    step = step[2]
                if step is None:
                    self._ev('none')
                    self.reads_none += 1
                    return None
                if isinstance(step, int):
                    step = ('item', step)
                if step[0] == 'item':
                    it = Item((step[1], sess))
                    self.returned.append(it)
                    self._ev('item', it)
                    return it
                if step[0] == 'raise':
                    self._ev('raise')
                    raise self.fault(step[1])
                if step[0] == 'gate':
                    g = step[1]
                    s = sched.ACTIVE
                    if s is not None and g not in self.gates:
                        self.waiting_gate = g
                        s.block(lambda: g in self.gates, None, 'gate %s' % g)
                        self.waiting_gate = None
                    continue
                raise AssertionError(step)
        finally:
            self.in_read -= 1

    def close(self):
        self.completed = len(self.returned)
        self._ev('close', self.in_read, self.is_open)
        self._pt()
        self.is_open = False
        if self.session in self.close_faults:
            self._ev('close-fault')
            raise CloseFault('close') if issubclass(self.fault, Fault) else self.fault('close')
        self._ev('closed')

    def key(self, data):
        if data[0] in self.key_faults:
            self._ev('key-fault')
            raise self.fault('key')
        return data[0]

    # harness helpers
    def at_end(self):
        return self.session > 0 and self.pos >= len(self.script()) and not self.in_read

    def idle(self):
        """The script is used up and a None was returned after it."""
        return self.session > 0 and bool(self.log) and any(
            e[0] == 'none-end' and e[1] == self.session for e in reversed(self.log))


from stream2py.stream_source import StreamSource  # noqa: E402


def _plain_init(self, *a, **kw):
    StreamSource.__init__(self)
    ScriptSource.__init__(self, *a, **kw)


# the same scripted source as a StreamSource
StreamScript = type('StreamScript', (StreamSource,), dict(
    {k: v for k, v in vars(ScriptSource).items() if not k.startswith('_') or k in ('_ev', '_pt')},
    __init__=_plain_init, __module__=__name__))
