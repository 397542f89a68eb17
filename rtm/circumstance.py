"""
A client process in given circumstances (C39).

    python <options> circumstance.py SPEC FD

SPEC (json) names what is set up before and after the library is imported, the order in which its modules are
imported and the cases to run; outcomes are pickled to the file descriptor FD.  The same cases are run by the
checking process itself (`outcomes`).
"""
import sys


# ---------------------------------------------------------------------------- the cases
def image(obj):
    import numpy as np
    if isinstance(obj, np.ndarray):
        return ('array', obj.dtype.str, obj.shape, obj.tobytes())
    if isinstance(obj, (tuple, list)):
        return tuple(image(o) for o in obj)
    if type(obj).__module__.startswith('nvector') and hasattr(obj, '__dict__'):
        return (type(obj).__name__,) + tuple(sorted((k, image(v)) for k, v in vars(obj).items() if not k.startswith('_')))
    return repr(obj)


def others(nv, rng):
    """what is refused, warned about, printed or compared: name -> callable"""
    import copy
    import pickle

    import numpy as np
    f1, f2 = nv.FrameE(), nv.FrameE(a=6371e3, f=0)
    u, v = rng.uniform(-1, 1, 2)
    p, q = f1.GeoPoint(u, v, z=10), f1.GeoPoint(v, u)
    r = f2.GeoPoint(u, v)
    two, three = f1.GeoPoint([u, v], [v, u]), f1.GeoPoint([u, v, 0], [v, u, 1])
    n = p.to_nvector().normal
    path = nv.GeoPath(p, q)
    return {
        'sum of different frames': lambda: p.to_ecef_vector() + r.to_ecef_vector(),
        'delta between different frames': lambda: p.delta_to(r),
        'distance between different frames': lambda: p.distance_and_azimuth(r),
        'local frame of another frame': lambda: p.delta_to(q).to_ecef_vector().change_frame(nv.FrameN(r)),
        'unknown ellipsoid': lambda: nv.get_ellipsoid('Nowhere 1999'),
        'unknown ellipsoid of a frame': lambda: nv.FrameE(name='Nowhere 1999'),
        'unknown axes': lambda: nv.FrameE(axes='x'),
        'product of positions': lambda: p.to_nvector() * q.to_nvector(),
        'quotient of positions': lambda: p.to_nvector() / q.to_nvector(),
        'two and three': lambda: two.delta_to(three),
        'latitudes and longitudes': lambda: nv.lat_lon2n_E([u, v], [u, v, 0]),
        'great circle of two and three': lambda: nv.great_circle_distance(two.to_nvector().normal, three.to_nvector().normal),
        'geodesics of two and three': lambda: two.distance_and_azimuth(three),
        'wrong length': lambda: nv.n_E2lat_lon(2 * n),
        'wrong length for N': lambda: nv.n_E2R_EN(0.5 * n),
        'path with itself': lambda: path.intersect(nv.GeoPath(q, p)),
        'old name of delta_E': lambda: nv.diff_positions(p, q),
        'old name of point_a': lambda: path.positionA,
        'old name of point_b': lambda: path.positionB,
        'old name of intersect': lambda: path.intersection(nv.GeoPath(p, f1.GeoPoint(1.2, 0.3))),
        'old name of mean': lambda: two.to_nvector().mean_horizontal_position(),
        'old name of get_ellipsoid': lambda: tuple(nv.select_ellipsoid('WGS84')),
        'ellipsoids': lambda: [tuple(nv.get_ellipsoid(x)) for x in ('wgs 84', 'GRS80', 'Bessel1841', 19, 'NAD 27', 'ED50')],
        'equal': lambda: (p == copy.deepcopy(p), p == q, p == r, p == 5, p != None, f1 == f2, f1 == nv.FrameE()),  # noqa: E711
        'printed': lambda: tuple(str(x) for x in (p, three, p.to_nvector(), f1, nv.FrameN(p), p.delta_to(q), nv.FrameB(p, u, v, 1))),
        'copied': lambda: tuple(copy.copy(x) for x in (p, two.to_nvector(), nv.FrameL(p, 0.3))),
        'pickled': lambda: tuple(pickle.loads(pickle.dumps(x)) for x in (p, two.to_nvector(), nv.FrameL(p, 0.3), f2)),
        'names': lambda: tuple(sorted(nv.core.__all__ + nv.util.__all__ + nv.rotation.__all__ + nv.objects.__all__)),
        'zero': lambda: nv.unit(np.zeros((3, 2))),
    }


def prepare(ctx, seed, idx):
    """(op, env, inputs) or (None, None, None) for the other things"""
    from rtm import catalog, engine
    from rtm.props.c18 import environment
    rng = engine.rng_for(seed, 'C39', 'inside', idx)
    if idx % 8 == 7:
        return None, rng, None
    o = catalog.OPS[rng.integers(len(catalog.OPS))]
    env = environment(ctx, rng, o)
    k = 1 if not o.vector else int(rng.choice([1, 2, 3, 5, 17]))
    return o, env, catalog.inputs(rng, o, k, env.a)


def one(ctx, seed, idx):
    """outcome of a case: ('values', canonical outputs) | ('others', {name: what})"""
    o, env, x = prepare(ctx, seed, idx)
    if o is not None:
        out, _raw = o.run(env, x)
        return ('values', o.name, out)
    answers = {}
    for name, fn in sorted(others(ctx.nv, env).items()):
        try:
            answers[name] = ('returned', image(fn()))
        except Exception as error:
            answers[name] = ('raised', type(error).__name__)
    return ('others', None, answers)


def outcomes(nv, seed, cases, within=None, record=True):
    """[(outcome or ('failed', None, text), warnings)] of the cases"""
    import warnings

    from rtm import engine
    ctx = engine.Ctx(nv, 'C39', 'quick')
    found = []
    for idx in cases:
        ctx.begin()

        def run():
            try:
                return one(ctx, seed, idx)
            except Exception as error:
                return ('failed', None, '{}: {}'.format(type(error).__name__, getattr(error, 'detail', error)))
        if record:
            with warnings.catch_warnings(record=True) as caught:
                warnings.simplefilter('always')
                out = within(run) if within else run()
            found.append((out, sorted((w.category.__name__, str(w.message)) for w in caught)))
        else:
            found.append((within(run) if within else run(), None))
    return found


# ---------------------------------------------------------------------------- where a client may call from
def in_thread(fn):
    import threading
    box = []
    t = threading.Thread(target=lambda: box.append(fn()))
    t.start()
    t.join()
    return box[0]


def in_pool(fn):
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(2) as pool:
        return pool.submit(fn).result()


def in_signal_handler(fn):
    import signal
    box = []
    old = signal.signal(signal.SIGUSR1, lambda *a: box.append(fn()))
    signal.raise_signal(signal.SIGUSR1)
    signal.signal(signal.SIGUSR1, old)
    return box[0]


def in_coroutine(fn):
    import asyncio

    async def main():
        await asyncio.sleep(0)
        return fn()
    return asyncio.run(main())


def in_generator(fn):
    def gen():
        yield fn()
    return next(gen())


def in_finalizer(fn):
    import gc
    box = []

    class Dying(object):
        def __init__(self):
            self.me = self

        def __del__(self):
            box.append(fn())
    Dying()
    gc.collect()
    return box[0]


def in_weakref_callback(fn):
    import weakref
    box = []

    class Thing(object):
        pass
    thing = Thing()
    ref = weakref.ref(thing, lambda r: box.append(fn()))
    del thing
    assert ref is not None
    return box[0]


def deep_in_the_stack(fn):
    def down(k):
        return fn() if k == 0 else down(k - 1)
    return down(600)


def traced(fn):
    def tracer(frame, event, arg):
        return tracer
    old = sys.gettrace()
    sys.settrace(tracer)
    try:
        return fn()
    finally:
        sys.settrace(old)


def profiled(fn):
    import cProfile
    prof = cProfile.Profile()
    prof.enable()
    try:
        return fn()
    finally:
        prof.disable()


def in_context(fn):
    import contextvars
    return contextvars.Context().run(fn)


def in_exception_handler(fn):
    try:
        raise KeyError('something else')
    except KeyError:
        return fn()


def in_class_body(fn):
    box = []

    class Body(object):
        box.append(fn())
    return box[0]


def in_sort_key(fn):
    box = []
    sorted([1], key=lambda x: box.append(fn()) or 0)
    return box[0]


WITHIN = dict((f.__name__, f) for f in (
    in_thread, in_pool, in_signal_handler, in_coroutine, in_generator, in_finalizer, in_weakref_callback,
    deep_in_the_stack, traced, profiled, in_context, in_exception_handler, in_class_body, in_sort_key))


# ---------------------------------------------------------------------------- settings of the process
DECOYS = ''


def where():
    import os
    try:
        return os.getcwd()
    except OSError:
        return 'nowhere'


def set_up(names):
    import decimal
    import gc
    import io
    import locale
    import random
    import warnings

    import numpy as np
    for name in names:
        if name.startswith('seterr '):
            np.seterr(all=name.split()[1])
            np.seterrcall(lambda *a: None)
        elif name == 'print options':
            np.set_printoptions(precision=2, threshold=3, edgeitems=1, suppress=True, sign='+')
        elif name == 'legacy printing':
            np.set_printoptions(legacy='1.13')
        elif name.startswith('seeds '):
            random.seed(int(name.split()[1]))
            np.random.seed(int(name.split()[1]))
        elif name.startswith('filter '):
            warnings.simplefilter(name.split()[1])
        elif name.startswith('locale '):
            try:
                locale.setlocale(locale.LC_ALL, name.split()[1])
            except locale.Error:
                pass
        elif name == 'decimal':
            decimal.getcontext().prec = 3
        elif name == 'no gc':
            gc.disable()
        elif name == 'eager gc':
            gc.set_threshold(1, 1, 1)
        elif name == 'switching':
            sys.setswitchinterval(1e-6)
        elif name == 'no stdout':
            sys.stdout = None
            sys.stderr = None
        elif name == 'ascii stdout':
            sys.stdout = io.TextIOWrapper(io.BytesIO(), encoding='ascii')
        elif name == 'no descriptors':
            import resource
            resource.setrlimit(resource.RLIMIT_NOFILE, (64, 64))
        elif name == 'no files':
            import resource
            resource.setrlimit(resource.RLIMIT_FSIZE, (0, 0))
        elif name == 'hidden arguments':
            sys.argv[:] = ['']
        elif name == 'digits':
            sys.set_int_max_str_digits(640)
        elif name == 'decoys':
            sys.path.insert(0, DECOYS)
        elif name == 'no directory':
            import os
            import tempfile
            place = tempfile.mkdtemp(dir=os.path.dirname(os.path.dirname(DECOYS)))
            os.chdir(place)
            os.rmdir(place)
        elif name == 'alarms':
            import signal
            signal.signal(signal.SIGALRM, lambda *a: None)
            signal.setitimer(signal.ITIMER_REAL, 0.003, 0.003)
        else:
            raise KeyError(name)


def settings():
    import locale
    import os
    import random
    import signal
    import threading

    import numpy as np
    return dict(errors=np.geterr(), printing=np.get_printoptions(), cwd=where(), random=repr(random.getstate()),
                numpy_random=repr(np.random.get_state()), environ=dict(os.environ), recursion=sys.getrecursionlimit(),
                path=list(sys.path), locale=locale.setlocale(locale.LC_ALL), threads=threading.active_count(),
                handlers=repr([signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM)]),
                hooks=repr((sys.excepthook, sys.displayhook, sys.gettrace(), sys.getprofile())),
                switch=sys.getswitchinterval(), umask=mask())


def mask():
    import os
    old = os.umask(0o22)
    os.umask(old)
    return old


def main():
    import json
    import os
    import pickle
    spec = json.loads(sys.argv[1])
    fd = int(sys.argv[2])
    import numpy as np  # noqa: F401
    import scipy.interpolate  # noqa: F401
    import scipy.signal  # noqa: F401
    import geographiclib.geodesic  # noqa: F401
    import concurrent.futures.thread  # noqa: F401
    import asyncio  # noqa: F401
    import cProfile  # noqa: F401
    import importlib
    import warnings
    global DECOYS
    DECOYS = os.path.join(os.getcwd(), 'decoys')
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    home = spec['library']
    nothing = os.path.join(os.getcwd(), 'nothing')
    set_up(spec['before'])
    sys.path[:] = [home] + [p for p in sys.path if p != '/repo/src'] if 'decoys' not in spec['before'] else \
        sys.path[:1] + [home] + [p for p in sys.path[1:] if p != '/repo/src']
    if spec['compile']:
        sys.pycache_prefix = nothing
        sys.dont_write_bytecode = True
    before = settings()
    filters = list(warnings.filters)
    report = dict(imported=None, changed=[], found=None)
    try:
        for name in spec['order']:
            importlib.import_module(name)
        import nvector as nv
        if not nv.__file__.startswith(home + '/'):
            raise RuntimeError('nvector was imported from ' + nv.__file__)
        if spec['twice']:
            for name in [m for m in sys.modules if m.split('.')[0] == 'nvector']:
                del sys.modules[name]
            import nvector as nv
        import nvector.core
        import nvector.objects
        import nvector.rotation
        import nvector.util
    except Exception as error:
        import traceback
        report['imported'] = '{}: {}\n{}'.format(type(error).__name__, error, traceback.format_exc()[-1500:])
    else:
        after = settings()
        report['changed'] = [(k, repr(before[k])[:200], repr(after[k])[:200]) for k in before if before[k] != after[k]]
        if list(warnings.filters) != filters:
            report['changed'].append(('warning filters', repr(filters)[:200], repr(warnings.filters)[:200]))
        if 'decoys' in spec['before']:
            sys.path.remove(DECOYS)
        sys.path.insert(1, here)
        set_up(spec['after'])
        within = WITHIN[spec['within']] if spec['within'] else None
        if spec['fork']:
            r, w = os.pipe()
            if os.fork() == 0:
                with os.fdopen(w, 'wb') as out:
                    pickle.dump(outcomes(nv, spec['seed'], spec['cases'], within, spec['record']), out)
                os._exit(0)
            os.close(w)
            with os.fdopen(r, 'rb') as src:
                report['found'] = pickle.load(src)
            os.wait()
        else:
            report['found'] = outcomes(nv, spec['seed'], spec['cases'], within, spec['record'])
    import signal
    signal.setitimer(signal.ITIMER_REAL, 0)
    with os.fdopen(fd, 'wb') as out:
        pickle.dump(report, out)


if __name__ == '__main__':
    main()
