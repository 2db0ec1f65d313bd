"""C23: packaging configs survive a write-read round trip, other sections untouched; versions go up by one."""
import configparser
import io
import itertools
import json
import os
import shutil
import tempfile
import urllib.error
import urllib.request

from . import load
from .hist import bfs_many, canon, cases

pack = load.load_pack()

VALUES = {'word': 'abc', 'empty': '', 'spaced': 'a b = c: d', 'url': 'https://x.y/z#q', 'one': ['a'], 'two': ['first item', 'b'],
          'three': ['x >= 1.0; python_version < "3"', '[opt]', 'k = v'], 'unicode': 'é€', 'hash': 'a # b'}
SECTIONS = ('metadata', 'options', 'options.extras')


def scratch():
    return tempfile.mkdtemp(prefix='verif-c23-')


class File:
    """One ini file, operated by writes; the model is a dict of dicts."""

    def __init__(self, initial):
        self.dir = scratch()
        self.path = os.path.join(self.dir, 'setup.cfg')
        self.model = {}
        if initial is not None:
            text, model = initial
            with open(self.path, 'w') as f:
                f.write(text)
            self.model = {k: dict(v) for k, v in model.items()}

    def __del__(self):
        if os.path.realpath(self.dir).startswith(os.path.realpath(tempfile.gettempdir()) + os.sep + 'verif-c23-'):
            shutil.rmtree(self.dir, ignore_errors=True)

    def ops(self):
        return [('write', s, c) for s in SECTIONS[:2] for c in range(len(CONFIGS))] + [('bad', s, b) for s in SECTIONS[:2] for b in BAD] + \
            [('default', 1), ('rewrite', 'metadata'), ('rewrite', 'options'), ('raw', 'options')]

    def apply(self, o):
        out = []
        if o[0] == 'write':
            d = {k: (list(v) if isinstance(v, list) else v) for k, v in CONFIGS[o[2]].items()}
            pack.write_configs(d, self.path, o[1])
            if d != CONFIGS[o[2]]:
                out.append('the configs given were changed to %r' % (d,))
            self.model[o[1]] = dict(CONFIGS[o[2]])
        elif o[0] == 'default':              # the section written by default
            pack.write_configs(dict(CONFIGS[o[1]]), self.path)
            self.model['metadata'] = dict(CONFIGS[o[1]])
        elif o[0] == 'rewrite':              # write what was read
            if o[1] in self.model:
                pack.write_configs(pack.read_configs(self.path, o[1]), self.path, o[1])
        elif o[0] == 'raw':                  # a pair list instead of a dict
            pack.write_configs(list(CONFIGS[2].items()), self.path, o[1])
            self.model[o[1]] = dict(CONFIGS[2])
        elif o[0] == 'bad':
            before = self.text()
            try:
                pack.write_configs(BAD[o[2]], self.path, o[1])
                self.model[o[1]] = dict(BAD[o[2]])       # accepted: then it has to come back
                return out
            except Exception as e:
                if isinstance(e, (OSError, NameError)):
                    raise
            if self.text() != before:
                out.append('the failed write of %r changed the file' % (BAD[o[2]],))
        return out

    def text(self):
        if not os.path.exists(self.path):
            return None
        with open(self.path) as f:
            return f.read()

    def check(self):
        out = []
        if self.text() is None:
            return []
        for s in SECTIONS:
            try:
                got = pack.read_configs(self.path, s)
            except KeyError:
                got = None
            if got != self.model.get(s):
                out.append('section %s reads %r, written %r' % (s, got, self.model.get(s)))
        whole = {k: dict(v) for k, v in pack.read_configs(self.path, None).items()}
        if not whole.get('DEFAULT'):
            whole.pop('DEFAULT', None)
        if whole != self.model:
            out.append('all sections read %r, written %r' % (whole, self.model))
        if 'metadata' in self.model and pack.read_configs(self.path) != self.model['metadata']:
            out.append('the default section reads %r' % (pack.read_configs(self.path),))
        # without post-processing, and by the standard reader
        c = configparser.ConfigParser()
        c.read_file(io.StringIO(self.text()))
        raws = {k: dict(v) for k, v in pack.read_configs(self.path, None, None).items()}
        if raws != {k: dict(v) for k, v in c.items()}:
            out.append('all sections without post-processing read %r, the file has %r' % (raws, {k: dict(v) for k, v in c.items()}))
        for s in self.model:
            raw = dict(c[s]) if s in c else None
            if pack.read_configs(self.path, s, None) != raw:
                out.append('section %s without post-processing reads %r, the file has %r' % (s, pack.read_configs(self.path, s, None), raw))
        if out:
            return out
        if os.listdir(self.dir) != ['setup.cfg']:
            out.append('files left behind: %r' % (os.listdir(self.dir),))
        return out

    def canon(self):
        return canon(self.text(), self.model)


CONFIGS = [{'name': 'abc', 'keywords': ['a', 'b c']}, {'name': 'x y', 'version': '0.1.2', 'empty': ''}, {'keywords': ['one']}, {},
           {'name': 'other', 'classifiers': ['A :: B', 'C :: D'], 'keywords': 'now a string'}]
BAD = {'none': {'name': None}, 'list': {'name': 'new', 'keywords': [1]}, 'percent': {'name': 'new', 'x': '100%'}}
INITIAL = {
    'no file': None,
    'empty file': ('', {}),
    'other sections': ('[options.extras]\nx = 1\nlist =\n\ty\n\tz\n[options]\npackages = find:\n',
                       {'options.extras': {'x': '1', 'list': ['y', 'z']}, 'options': {'packages': 'find:'}}),
    'commented': ('; a comment\n[metadata]\n# another\nname = n\nkeywords = \n    a\n    # no\n    b\n',
                  {'metadata': {'name': 'n', 'keywords': ['a', 'b']}}),
}


def check_value(c):
    """Every small config, written to a fresh file and read back; then conversion alone."""
    keys, section, twice = c
    d = {'k%d' % i: VALUES[k] for i, k in enumerate(keys)}
    f = File(None)
    out = []
    for n in range(2 if twice else 1):
        pack.write_configs(d, f.path, section)
        got = pack.read_configs(f.path, section)
        if got != d:
            out.append('written %r, read %r' % (d, got))
            break
    conv = dict(pack.postprocess_ini_section_items(dict(pack.preprocess_ini_section_items(d))))
    if conv != d:
        out.append('converted %r, back %r' % (d, conv))
    conv = dict(pack.postprocess_ini_section_items(pack.preprocess_ini_section_items(d.items())))
    if conv != d:
        out.append('converted pairs %r, back %r' % (d, conv))
    return out, 2, ()


def check_version(c):
    want = list(c)
    want[-1] += 1
    got = pack.increment_version('.'.join(map(str, c)))
    try:
        nums = [int(x) for x in got.split('.')]
    except Exception:
        nums = None
    return ([] if nums == want and isinstance(got, str) else ['%r incremented is %r' % (c, got)]), 1, ()


class Index(urllib.request.BaseHandler):
    def __init__(self, answer):
        self.answer = answer
        self.urls = []

    def https_open(self, req):
        self.urls.append(req.full_url)
        if isinstance(self.answer, int):
            raise urllib.error.HTTPError(req.full_url, self.answer, 'no', {}, io.BytesIO())
        r = urllib.response.addinfourl(io.BytesIO(json.dumps(self.answer).encode()), {}, req.full_url, 200)
        r.msg = 'OK'
        return r


def check_next(c):
    """The next version of a package with given releases on the index."""
    kind, rel = c
    h = Index(404 if kind == 'unknown' else {'releases': {v: [] for v in rel}} if kind == 'known' else {})
    op = urllib.request.OpenerDirector()
    op.add_handler(h)
    urllib.request.install_opener(op)
    out = []
    got = pack.next_version_for_package('pkg')
    cur = pack.current_pypi_version('pkg')
    best = max(([int(x) for x in v.split('.')] for v in rel), default=None)
    want = [0, 0, 1] if best is None else best[:-1] + [best[-1] + 1]
    if [int(x) for x in got.split('.')] != want:
        out.append('the releases are %r, the next version is %r' % (rel, got))
    if (None if cur is None else [int(x) for x in cur.split('.')]) != best:
        out.append('the releases are %r, the current version is %r' % (rel, cur))
    if any('/pkg/' not in u for u in h.urls) or len(h.urls) != 2:
        out.append('requests: %r' % (h.urls,))
    other = pack.next_version_for_package('pkg', version_if_current_version_none='9.0')
    if best is None and other != '9.0':
        out.append('the version for an unknown package is %r' % (other,))
    return out, 3, (kind, got)


def run(rep):
    cases(rep, 'every config', [(ks, s, t) for n in range(rep.q(4, 5)) for ks in itertools.product(VALUES, repeat=n)
                                for s, t in (('metadata', False), ('options.extras', True))], check_value)
    bfs_many(rep, [('histories of writes, ' + n, (lambda i=i: File(i)), rep.q(3, 4)) for n, i in INITIAL.items()])
    cases(rep, 'versions', [v for n in range(1, 4) for v in itertools.product((0, 1, 9, 10, 99), repeat=n)], check_version)
    vs = ['0.0.1', '0.0.2', '0.0.10', '0.1.0', '1.0.0', '0.9.9', '10.0.0', '1.2']
    cases(rep, 'next version', [('known', rel) for n in range(4) for rel in itertools.permutations(vs, n)] + [('unknown', ()), ('no list', ())], check_next)
