"""Imports the code under test from the repository's working tree, under the controlled primitives."""
import importlib
import importlib.util
import os
import sys

from . import sched

REPO = os.environ.get('STREAM2PY_REPO', '/repo')


def load():
    sys.dont_write_bytecode = True
    sys.pycache_prefix = '/nonexistent/verif-no-pycache'   # never trust a stale .pyc
    pkg = os.path.join(REPO, 'stream2py') + os.sep
    sched.install([pkg])
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import stream2py
    assert os.path.realpath(stream2py.__file__).startswith(os.path.realpath(pkg)), stream2py.__file__
    return stream2py


def load_pack():
    spec = importlib.util.spec_from_file_location('verif_pack_under_test', os.path.join(REPO, 'pack.py'))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m
