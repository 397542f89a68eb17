"""Load the code under test from /repo/src, never from stale bytecode."""
import os
import sys
import warnings

REPO_SRC = '/repo/src'


def load():
    sys.dont_write_bytecode = True
    if REPO_SRC not in sys.path[:1]:
        sys.path.insert(0, REPO_SRC)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        import nvector
        import nvector.core
        import nvector.objects
        import nvector.rotation
        import nvector.util
    if not os.path.abspath(nvector.__file__).startswith(REPO_SRC + '/'):
        raise RuntimeError('nvector was imported from ' + nvector.__file__)
    return nvector
