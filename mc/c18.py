"""C18: the HTTP source delivers the response faithfully, chunk by chunk."""
import http.client
import io
import itertools
import urllib.request

from . import load, sched
from .env import StreamBuffer
from .hist import cases
from .sched import v_sleep
from stream2py.sources.http import HTTPResponseReader


class Raw(io.RawIOBase):
    """A socket's byte stream, arriving in given pieces."""

    def __init__(self, pieces):
        self.pieces = [p for p in pieces if p]

    def readable(self):
        return True

    def readinto(self, b):
        if not self.pieces:
            return 0
        p = self.pieces[0][:len(b)]
        b[:len(p)] = p
        rest = self.pieces[0][len(p):]
        self.pieces[:1] = [rest] if rest else []
        return len(p)


class Sock:
    def __init__(self, raw):
        self.raw = raw

    def makefile(self, mode):
        return io.BufferedReader(self.raw)


class Response(http.client.HTTPResponse):
    """Short: reads return the given pieces, whatever size is asked for (never more)."""
    short = None
    handed = 0
    closes = 0
    ended = False

    def read(self, amt=None):
        if self.short is None:
            r = super().read(amt)
        else:
            if amt is not None and amt < 0:
                amt = None
            if not self.short:
                r = b''
            elif amt is None:
                r = b''.join(self.short)
                self.short = []
            else:
                r = self.short[0][:amt]
                rest = self.short[0][amt:]
                self.short[:1] = [rest] if rest else []
        self.handed += len(r)
        return r

    def close(self):
        self.closes += 1
        super().close()


class Web(urllib.request.AbstractHTTPHandler):
    """Stands for the network: records requests, makes responses."""
    handler_order = 100
    http_request = urllib.request.AbstractHTTPHandler.do_request_
    https_request = http_request

    def __init__(self, respond):
        super().__init__()
        self.respond = respond
        self.requests = []
        self.responses = []

    def http_open(self, req):
        h = {k.lower(): v for k, v in req.header_items()}
        data = req.data
        if data is not None and not isinstance(data, bytes):
            data = b''.join(data) if not isinstance(data, str) else data
        self.requests.append((req.get_method(), req.full_url, data, h))
        r = self.respond(len(self.requests))
        self.responses.append(r)
        return r

    https_open = http_open


def response(payload, pieces=None, short=None, framing='length', status=200):
    head = b'HTTP/1.1 %d OK\r\nContent-Type: x/y\r\n' % status
    body = payload
    if framing == 'length':
        head += b'Content-Length: %d\r\n' % len(payload)
    elif framing == 'chunked':
        head += b'Transfer-Encoding: chunked\r\n'
        body = b''.join(b'%x\r\n%s\r\n' % (len(p), p) for p in pieces if p) + b'0\r\n\r\n'
        pieces = None
    head += b'\r\n'
    parts = [head] + ([body] if pieces is None else list(pieces))
    r = Response(Sock(Raw(parts)))
    r.begin()
    r.short = None if short is None else [p for p in short if p]
    return r


def use(respond):
    w = Web(respond)
    op = urllib.request.OpenerDirector()
    op.add_handler(w)
    op.add_handler(urllib.request.HTTPErrorProcessor())
    op.add_handler(urllib.request.HTTPDefaultErrorHandler())
    urllib.request.install_opener(op)
    return w


URL = 'http://host.invalid/data?x=1'


def splits(b):
    """All ways to cut b into non-empty pieces."""
    n = len(b)
    for m in range(1 << max(0, n - 1)):
        cuts = [0] + [i + 1 for i in range(n - 1) if m >> i & 1] + [n]
        yield [b[i:j] for i, j in zip(cuts, cuts[1:])]


def fetch(src, web, payload, encoding, limit, size=None):
    """Reads to the end; -> problems."""
    out = []
    chunks, nones, last = [], 0, 0.0
    want = payload.decode(encoding) if encoding else payload
    empty = '' if encoding else b''
    resp = web.responses[-1]
    n = 0
    while nones < 3:
        n += 1
        if n > limit:
            out.append('still no end after %d reads of %d bytes: %r' % (n, len(payload), chunks))
            break
        t0 = sched.v_time()
        x = src.read()
        t1 = sched.v_time()
        got = src.info.get('n_bytes_read')
        if got != resp.handed and got != sum(r.handed for r in web.responses):   # of this response or in all
            out.append('n_bytes_read is %r after %d bytes were received' % (got, resp.handed))
            break
        if x is None:
            if resp.handed >= len(payload):
                nones += 1
            continue
        if not (isinstance(x, tuple) and len(x) == 2):
            out.append('read gave %r' % (x,))
            break
        t, c = x
        if not t0 - 1e-3 <= t <= t1 + 1e-3:
            out.append('time %r, the clock shows %r' % (t, t1))
        if type(c) is not type(empty):
            out.append('chunk %r' % (c,))
            break
        if nones or not c and resp.handed >= len(payload):
            out.append('read at the end gave the item %r' % (x,))
            break
        if size is not None and len(c) > size + (3 if encoding else 0):
            out.append('asked for %d bytes at a time, got %r' % (size, c))
        if src.key(x) is None:
            out.append('no key')
        chunks.append(c)
        sched.v_sleep(0.001)
    if not out and empty.join(chunks) != want:
        out.append('the chunks %r make %r, the response is %r' % (chunks, empty.join(chunks), want))
    return out


PAYLOADS = {
    '': [b'', b'a', b'ab\r\n\x00c', b'{"k": 1}'],
    'utf-8': [t.encode() for t in ('', 'ab', 'é', 'aé€', '€😀', 'é\nß')],
    'utf-16': [t.encode('utf-16') for t in ('', 'é', '😀')],
    'latin-1': [b'\xe9a', b'abc'],
    'shift_jis': ['あb'.encode('shift_jis')],
    'utf-8-sig': ['é'.encode('utf-8-sig')],
}


def run(rep):
    # every split of every payload, by short reads, by read size, by transfer chunks and by packets
    cs = []
    for enc, pays in PAYLOADS.items():
        for p in pays:
            if len(p) > rep.q(8, 12):
                continue
            sizes = [(), None, (None,), (-1,), -1] + [(k,) for k in range(1, len(p) + 2)] + [1, 2, 3]
            for args in sizes:
                cs.append((enc, p, args, 'length', None))
            for sp in splits(p):
                cs.append((enc, p, (100,), 'short', sp))
                cs.append((enc, p, (2,), 'short', sp))
                cs.append((enc, p, (), 'chunked', sp))
                cs.append((enc, p, (3,), 'chunked', sp))
                cs.append((enc, p, (2,), 'packets', sp))
                cs.append((enc, p, (1,), 'until closed', sp))

    def check(c):
        enc, p, args, how, sp = c
        def respond(n):
            if how == 'short':
                return response(p, short=sp)
            if how == 'chunked':
                return response(p, pieces=sp, framing='chunked')
            if how == 'packets':
                return response(p, pieces=sp)
            if how == 'until closed':
                return response(p, pieces=sp, framing='none')
            return response(p)
        web = use(respond)
        src = HTTPResponseReader(URL, encoding=enc, response_read_args=args)
        out = []
        src.close()                   # not open yet: nothing to close
        for again in (1, 2):
            src.open()
            if len(web.requests) != again:
                out.append('%d requests after %d opens' % (len(web.requests), again))
            size = args[0] if isinstance(args, tuple) and args else args
            out += fetch(src, web, p, enc, 3 * len(p) + 10, size if isinstance(size, int) and size > 0 else None)
            src.close()
            if not web.responses[-1].closed or not web.responses[-1].closes:
                out.append('the response was not closed')
            src.close()               # again
            if out:
                break
            if again == 1 and len(p) > 1:   # leave it in the middle, possibly within a character
                src.open()
                src.read()
                src.close()
                web.requests.pop()
        return out, 4, (enc, how)

    cases(rep, 'every split', cs, check)

    # every request configuration
    qs = list(itertools.product(('GET', 'POST', 'PUT', 'DELETE', 'get', 'HEAD', 'PATCH'), (None, {}, {'X-A': '1', 'Accept': 'x/y'}, {'Content-type': 'x/json'}),
                                ('', b'', 'text é', b'\x00\xff', '{"a": 1}'), (URL, 'https://host.invalid/', 'http://host.invalid:81/%20')))

    def check2(c):
        method, headers, body, url = c
        web = use(lambda n: response(b'ok'))
        kept = None if headers is None else dict(headers)
        src = HTTPResponseReader(url, method=method, headers=headers, body=body)
        out = []
        if web.requests:
            out.append('a request before open')
        i = src.info
        ik = i.get('init_kwargs') or {}
        if (ik.get('method'), ik.get('headers') or None, ik.get('body')) != (method, headers or None, body) or ik.get('response_format') != 'bytes':
            out.append('info before open: %r' % (i,))
        if i.get('url') != url or i.get('n_bytes_read') != 0:
            out.append('info before open: %r' % (i,))
        for again in (1, 2):
            src.open()
            if len(web.requests) != again:
                out.append('%d requests after %d opens' % (len(web.requests), again))
                break
            m, u, data, h = web.requests[-1]
            want = None if method.upper() == 'GET' else body.encode() if isinstance(body, str) else body
            if m != method and m != method.upper():
                out.append('the request has method %r' % (m,))
            if u != url:
                out.append('the request goes to %r' % (u,))
            if (data or b'') != (want or b''):
                out.append('the request has body %r, configured %r' % (data, want))
            for k, v in (headers or {}).items():
                if h.get(k.lower()) != v:
                    out.append('the request has headers %r' % (h,))
            src.close()
        if headers != kept:
            out.append('the headers given were changed')
        return out, 2, (method, bool(headers))

    cases(rep, 'every request', qs, check2)
    # through a stream buffer
    hs = [('%r in %r, %s clock' % (p, sp, w), lambda p=p, sp=sp, w=w: Through(p, sp, w)) for p in ('aé€'.encode(), b'', 'é€'.encode(), b'cba', b'aaa') for sp in splits(p) for w in CLOCKS]
    rep.explore_many('through a stream buffer', hs, bound=rep.q(0, 1), gran='sync')


# what the wall clock shows after so many seconds
CLOCKS = {
    'exact': lambda t: t,
    'standing': lambda t: 0,
    'coarse': lambda t: t // 0.016 * 0.016,
    'set back': lambda t: t - (3600 if t > 0.45 else 0),
    'backward': lambda t: -t,
}


def Slow(resp):
    """Pieces arrive 0.2 s apart."""
    read = resp.read

    def slow(*a):
        if resp.handed:
            v_sleep(0.2)
        return read(*a)
    resp.read = slow
    return resp


class Through:
    def __init__(self, payload, pieces, clock):
        self.payload, self.pieces, self.clock = payload, pieces, clock
        self.outcome = None

    def main(self, s):
        sched.WALL = CLOCKS[self.clock]
        web = use(lambda n: Slow(response(self.payload, short=list(self.pieces))))
        self.got = []
        self.problems = []
        src = HTTPResponseReader(URL, encoding='utf-8', response_read_args=100)
        sb = StreamBuffer(src)
        s.region(False)
        sb.start()
        r = sb.mk_reader()
        s.region(True)
        for _ in range(30):
            x = next(r)
            if x is None:
                v_sleep(0.1)
            else:
                self.got.append(x)
        if not sb.is_running:
            self.problems.append('the stream ended with the response')
        sb.stop()
        if not web.responses[0].closed:
            self.problems.append('the response is open after stop')

    def check(self, s):
        self.outcome = [c for t, c in self.got]
        if ''.join(c for t, c in self.got) != self.payload.decode():
            self.problems.append('got %r, the response is %r' % (self.got, self.payload.decode()))
        return self.problems
