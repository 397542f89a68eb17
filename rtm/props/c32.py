"""C32: operations keep nothing alive and have no effects outside memory"""
import gc
import os
import sys
import threading
import tracemalloc
import weakref

import numpy as np

from rtm import catalog
from rtm.props.c18 import environment

TECHNIQUE = ('weak-reference monitor on arguments and results, allocation monitor (tracemalloc) over long histories, '
             'interpreter audit hook and file-descriptor monitor during the calls')
OPS = catalog.OPS
EVENTS = []
STATE = dict(installed=False, on=False)
WATCHED = ('open', 'os.', 'socket.', 'subprocess.', 'shutil.', 'tempfile.', 'ctypes.dlopen', 'exec', 'compile',
           'import', 'urllib.', 'winreg.', 'mmap.', 'signal.', 'sys.settrace', 'sys.setprofile', '_thread.start_new_thread')


def hook(event, args):
    if STATE['on'] == threading.get_ident() and event.startswith(WATCHED):
        EVENTS.append((event, tuple(str(a)[:80] for a in args)))


class Kept(catalog.Env):
    """remembers what a client handed over, weakly"""

    def send(self, kind, x):
        y = catalog.Env.send(self, kind, x)
        self.keep(y)
        return y

    def keep(self, y):
        if isinstance(y, np.ndarray) and not np.isscalar(y):
            self.refs.append(weakref.ref(y))
            if isinstance(y.base, np.ndarray):
                self.refs.append(weakref.ref(y.base))

    def point(self, name, n, z):
        P = catalog.Env.point(self, name, n, z)
        self.refs.append(weakref.ref(P))
        for v in vars(P).values():
            self.keep(v)
        return P

    def do(self, fn, *args, **kwds):
        # not through the recorder, which keeps arguments for the replay file
        return fn(*args, **kwds)


def kept(env):
    out = Kept.__new__(Kept)
    out.__dict__.update(env.__dict__)
    out.refs = []
    return out


class Quiet(object):
    """a context that records nothing"""

    def __init__(self, nv):
        self.nv = nv

    def do(self, _label, fn, *args, **kwds):
        return fn(*args, **kwds)


def descriptors():
    return sorted(os.listdir('/proc/self/fd')) if os.path.isdir('/proc/self/fd') else []


def references(ctx, rng, idx):
    """arguments and results die with the client's references"""
    o = OPS[idx % len(OPS)]
    env = kept(environment(Quiet(ctx.nv), rng, o))
    k = int(rng.choice([1, 2, 3, 5])) if o.vector else 1
    x = catalog.inputs(rng, o, k, env.a)
    ctx.do('inputs of ' + o.name, dict, x)
    if not STATE['installed']:
        sys.addaudithook(hook)
        STATE['installed'] = True
    o.run(env, x)       # lazy imports of scipy, geographiclib and so on
    del env.refs[:], EVENTS[:]
    fds, threads = descriptors(), threading.active_count()
    STATE['on'] = threading.get_ident()
    try:
        got, raw = o.run(env, x)
    finally:
        STATE['on'] = False
    ctx.eq('nothing outside memory is touched', EVENTS, [], o.name)
    ctx.eq('no file is left open', descriptors(), fds, o.name)
    ctx.eq('no thread is left running', threading.active_count(), threads, o.name)
    refs = list(env.refs)
    for v in list(raw.values()) + list(got.values()):
        if isinstance(v, np.ndarray):
            refs.append(weakref.ref(v))
    v = None
    del got, raw
    gc.collect(0)
    if any(r() is not None for r in refs):
        gc.collect()
    alive = [brief(r()) for r in refs if r() is not None]
    ctx.eq('arguments and results are released', alive, [], o.name)
    ctx.tag('objects followed', len(refs))


def brief(x):
    return type(x).__name__ + repr(getattr(x, 'shape', ''))


ROUNDS = 60


def growth(ctx, rng, idx):
    """memory in use does not grow with the number of calls"""
    o = OPS[idx % len(OPS)]
    quiet = Quiet(ctx.nv)
    k = 40 if o.vector else 1
    base = environment(quiet, rng, o)
    x = catalog.inputs(rng, o, k, base.a)
    ctx.do('inputs of ' + o.name, dict, x)
    size = sum(v.nbytes for v in x.values())

    def rounds(count):
        for _ in range(count):
            env = kept(base)
            env.a = base.a * (1 + 1e-3 * rng.random())      # another ellipsoid every time
            if env.frame is not None:
                env.frame = ctx.nv.FrameE(a=env.a, f=env.f, axes=env.axes)
            y = {n: (v * (1 + 1e-9 * rng.random()) if o.inputs[n] in ('len', 'num') else v.copy())
                 for n, v in x.items()}
            o.run(env, y)
    running = tracemalloc.is_tracing()
    if not running:
        tracemalloc.start()
    try:
        rounds(ROUNDS)
        gc.collect()
        grown = np.inf
        for _ in range(3):      # a leak is seen every time, tables of the interpreter that grow once are not
            before = tracemalloc.get_traced_memory()[0]
            rounds(ROUNDS)
            gc.collect()
            grown = min(grown, tracemalloc.get_traced_memory()[0] - before)
            if grown < 1024:
                break
    finally:
        if not running:
            tracemalloc.stop()
    # a call which keeps one array, or a cache entry, per call is far above this
    limit = 8192 + 0.1 * ROUNDS * min(size, 4096)
    ctx.true('memory in use does not grow', grown < limit, (o.name, grown, limit))
    ctx.worst['memory in use does not grow'] = max(ctx.worst.get('memory in use does not grow', 0), grown / limit)
    ctx.tag('calls under the allocation monitor', 2 * ROUNDS)


WORKLOADS = [('references', references, 1500, 30000), ('growth', growth, len(OPS) * 2, len(OPS) * 40)]
REQUIRE = ['nothing outside memory is touched', 'arguments and results are released', 'memory in use does not grow',
           'no file is left open']
