"""C40: work and memory in proportion to the number of positions"""
import gc
import os
import sys
import tracemalloc
import warnings

import numpy as np

from rtm import catalog, engine, gen
from rtm.env import REPO_SRC
from rtm.props.c18 import environment, sister
from rtm.props.c21 import cast, families, thunks
from rtm.props.common import KINDS, frame

TECHNIQUE = ('resource monitors: peak of traced allocations (tracemalloc), and calls and bytecode instructions executed in the '
             'library (profile and trace hooks), of the same operation on n and on 4 n positions, and on small and large numbers')
LIBRARY = os.path.join(REPO_SRC, 'nvector') + os.sep
OPS = [o for o in catalog.OPS if o.vector]
N, TIMES = 250, 4
# linear growth never exceeds 4 times the cost of a quarter; the rest is for lists that grow in steps
FACTOR, BYTES, STEPS = 1.12 * TIMES, 40000, 200


class Endless(Exception):
    pass


def counted(fn, limit=10 ** 8):
    """calls made by anybody and instructions executed in the library during fn()"""
    count = [0, 0]

    def profile(frame, event, arg):
        if event == 'call' or event == 'c_call':
            count[0] += 1

    def local(frame, event, arg):
        if event == 'opcode':
            count[1] += 1
            if count[1] > limit:
                raise Endless('more than {} instructions'.format(limit))
        return local

    def trace(frame, event, arg):
        if frame.f_code.co_filename.startswith(LIBRARY):
            frame.f_trace_lines = False
            frame.f_trace_opcodes = True
            return local
    old = sys.gettrace(), sys.getprofile()
    sys._getframe().f_trace_opcodes = True      # the interpreter is told before tracing starts
    sys.settrace(trace)
    sys.setprofile(profile)
    try:
        fn()
    finally:
        sys.setprofile(old[1])
        sys.settrace(old[0])
    return count


def allocated(fn):
    """peak of the memory in use during fn(), above what was in use before"""
    gc.collect()
    gc.disable()
    tracemalloc.start()
    try:
        base = tracemalloc.get_traced_memory()[0]
        tracemalloc.reset_peak()
        fn()
        return tracemalloc.get_traced_memory()[1] - base
    finally:
        tracemalloc.stop()
        gc.enable()


def costs(fn):
    """bytes, calls, instructions"""
    with np.errstate(all='ignore'), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        fn()                    # whatever is done once
        return (allocated(fn),) + tuple(counted(fn))


def compare(ctx, name, few, many, info):
    for what, a, b, slack in zip(('memory', 'calls', 'instructions'), few, many, (BYTES, STEPS, STEPS)):
        ctx.true(what + ' in proportion', b <= FACTOR * a + slack, (name, what, a, b, info))
        ctx.tag('{} of {} positions'.format(what, TIMES * N), b)
    ctx.tag('measured: ' + name)


def quiet(ctx):
    """a context that keeps nothing"""
    c = engine.Ctx(ctx.nv, ctx.prop, ctx.tier)
    c.do = lambda name, fn, *args, **kwds: fn(*args, **kwds)
    c.begin()
    return c


def catalogue(ctx, rng, idx):
    o = OPS[idx % len(OPS)]
    c = quiet(ctx)
    env = environment(c, rng, o)
    ctx.do(o.name, lambda: None)
    # one position against many, in some of the arguments
    single = [n for n in o.bcast if rng.integers(3) == 0] if rng.integers(2) else []
    found = []
    for k in (N, TIMES * N):
        x = catalog.plain_inputs(rng, o, k, env.a)
        for group in single:
            for name in group if all(n in x for n in group) else [group]:
                if name in x:
                    x[name] = np.ascontiguousarray(x[name][..., :1])
        try:
            found.append(costs(lambda: o.run(sister(env), x)))
        except Exception as error:
            if single:
                found.append(None)
                break
            raise error
    if found[-1] is None:
        ctx.tag('not broadcast')
        return
    compare(ctx, o.name, found[0], found[1], (env.kinds, single))


def questions(ctx, rng, idx):
    """what objects can be asked"""
    c = quiet(ctx)
    seed = int(rng.integers(2 ** 31))
    asked = []
    kinds = [KINDS[i] for i in rng.integers(3, size=4)]
    for k in (N, TIMES * N):
        r = np.random.default_rng(seed)
        s, _e = cast(c, r, k, kinds)
        asked.append(thunks(ctx.nv, s) + [q for family in families(ctx.nv, s) for q in family])
    total = len(asked[0])
    ctx.eq('same questions', len(asked[1]), total)
    ctx.do('questions', lambda: None)
    for i in range(idx % 8, total, 8):
        few, many = (costs(asked[j][i]) for j in (0, 1))
        compare(ctx, 'question', few, many, (i, asked[1][i]))
        ctx.tag('question {}'.format(i))


def series(ctx, rng, idx):
    """interpolation: nodes and times grow together; means, sums and comparisons of many"""
    nv = ctx.nv
    kind = ('linear', 'nearest', 'previous', 'next', 'slinear', 'quadratic', 'cubic')[idx % 7]
    window = int(rng.choice([0, 0, 3, 5, 11]))
    fr, a, f, R, ax = frame(ctx, rng)
    found = []
    mode = ('interp', 'mirror', 'constant', 'nearest', 'wrap')[rng.integers(5)]
    for k in (N, TIMES * N):
        t = np.arange(k) + rng.uniform(-.3, .3, k)
        n = gen.normalize(np.vstack((np.sin(t / k), np.cos(t / k), 0.1 * t / k)))
        q = rng.uniform(0, k, k)
        v = fr.Nvector(n, z=rng.normal(size=k))
        w = fr.Nvector(n.copy(), z=v.z.copy())
        found.append((costs(lambda: nv.interp_nvectors(q, t, n, kind=kind, window_length=window, mode=mode)),
                      costs(lambda: v.interpolate(q, t, kind=kind, window_length=window, mode=mode)),
                      costs(lambda: nv.mean_horizontal_position(n)), costs(v.mean), costs(lambda: v == w),
                      costs(lambda: repr(v)), costs(w.unit), costs(lambda: v.delta_to(w)),
                      costs(lambda: nv.GeoPath(v, w).on_path(v))))
    ctx.do('series', lambda: None)
    for i, name in enumerate(('interp_nvectors', 'Nvector.interpolate', 'mean', 'Nvector.mean', '==', 'repr', 'unit', 'delta_to',
                              'on_path')):
        compare(ctx, 'series: ' + name, found[0][i], found[1][i], (kind, window, mode))


def values(ctx, rng, idx):
    """the work does not depend on how large angles and distances are"""
    nv = ctx.nv
    fr, a, f, R, ax = frame(ctx, rng)
    lat, lon, az, d = rng.uniform(-1.5, 1.5), rng.uniform(-3, 3), rng.uniform(-3, 3), rng.uniform(-1, 1)
    many = 10.0 ** rng.uniform(2, 12)
    degrees = bool(rng.integers(2))

    def calls(m):
        """what is to be called with numbers m times as large"""
        p, q = fr.GeoPoint(lat, lon * m), fr.GeoPoint(lat / 2, lon * m + 0.3)
        n = nv.lat_lon2n_E(lat, lon * m, fr.R_Ee)
        return [
            lambda: nv.lat_lon2n_E(lat, lon * m), lambda: nv.n_EA_E_distance_and_azimuth2n_EB_E(n, d * m, az * m),
            p.to_nvector, p.to_ecef_vector, lambda: p == q, lambda: p == fr.GeoPoint(lat, lon * m),
            lambda: p.displace(d * m * a, az * m, method='greatcircle', degrees=degrees),
            lambda: p.displace(d * m * a, az * m, degrees=degrees),
            lambda: p.displace(d * m * a, az * m, degrees=degrees, long_unroll=True),
            lambda: p.distance_and_azimuth(q, degrees=degrees), lambda: p.distance_and_azimuth(q, method='greatcircle'),
            lambda: nv.FrameL(p, az * m).R_EN, lambda: nv.FrameB(p, az * m, lat * m, lon * m, degrees=degrees).R_EN,
            lambda: nv.FrameB(p, az * m) == nv.FrameB(q, az * m), lambda: nv.xyz2R(az * m, d * m, lon * m),
            lambda: nv.zyx2R(az * m, d * m, lon * m), lambda: nv.GeoPath(p, q).track_distance(),
            lambda: nv.GeoPath(p, q).interpolate(d * m), lambda: nv.GeoPath(p, q).on_path(p, method='ellipsoid'),
            lambda: p.delta_to(q).azimuth, lambda: repr(p), lambda: nv.nthroot(abs(d) * m, 3), lambda: nv.unit(n * m)]
    ctx.do('values', lambda: None)
    pair = []
    cost = []
    for m in (1.0, many):
        try:
            cost.append(counted(lambda: pair.append(calls(m)), 10 ** 6)[1])
        except Endless:
            cost.append(np.inf)
    ctx.true('work does not depend on magnitudes', cost[1] <= 4 * cost[0] + 400, ('construction', cost, many))
    if len(pair) < 2:
        return
    for i, (small, large) in enumerate(zip(*pair)):
        with np.errstate(all='ignore'), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            small()
            few = counted(small)[1]
            try:
                lots = counted(large, 100000 + 4 * few)[1]
            except Endless:
                lots = np.inf
        ctx.true('work does not depend on magnitudes', lots <= 4 * few + 400, (i, few, lots, many))


RULE = 'Costs of {} and {} positions; at most {:.2f} times as much (and {} bytes, {} steps).'.format(
    N, TIMES * N, FACTOR, BYTES, STEPS)
REQUIRE = ['memory in proportion', 'calls in proportion', 'instructions in proportion', 'work does not depend on magnitudes']
WORKLOADS = [('catalogue', catalogue, 240, 6000), ('questions', questions, 24, 800), ('series', series, 28, 800),
             ('values', values, 60, 2000)]
