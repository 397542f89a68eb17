"""C27: no singularities"""
import warnings

import numpy as np

from rtm import catalog, gen, ref
from rtm.props.c18 import environment, sister
from rtm.props.common import EPS, KINDS, PI, frame, make_point, to_double

TECHNIQUE = ('hostile-input monitor: every operation at poles, antimeridian, coincident, antipodal and nearly so; '
             'finiteness, range, unit length and orthonormality of all results, and numpy floating-point flags '
             'raised inside the library')
OPS = catalog.OPS
TURN = PI * (1 + 4 * EPS)


def hostile(rng, o, k, a):
    """canonical inputs without any care"""
    x = {}
    for name, kind in o.inputs.items():
        if kind == 'n':
            if name == 'n':
                x[name] = body(rng, k)
            elif name in ('m', 'q'):
                x[name] = gen.partner(rng, x['n' if name == 'm' else 'p'])
            else:
                near = gen.partner(rng, x['n' if rng.integers(2) else 'm'])
                x[name] = np.where(rng.integers(3, size=k) == 0, body(rng, k), near)
                if name in ('p', 't') and 'm' in x:      # the poles of the great circle through the others
                    with np.errstate(all='ignore'):
                        c = to_double(ref.unit(ref.circle(x['n'], x['m']))) * gen.sign(rng, k)
                        use = (rng.integers(4, size=k) == 0) & np.isfinite(c).all(axis=0)
                    x[name] = np.ascontiguousarray(np.where(use, c, x[name]))
        elif kind == 'len':
            if name in ('z', 'w', 'v', 'u'):
                x[name] = gen.depth(rng, k, a, deep=False)
            elif name == 'r':
                x[name] = rng.choice([1.0, 1e-3, 0.0, 1e3], k) * a
            else:
                x[name] = np.where(rng.integers(4, size=k) == 0, 0.0, gen.angle(rng, k) * a)
        elif kind == 'lat':
            x[name] = gen.lat(rng, k)
        elif kind == 'lon':
            x[name] = gen.lon(rng, k, turns='many')
        elif kind == 'ang':
            x[name] = gen.angle(rng, k, 'many')
        elif kind == 'num':
            x[name] = rng.choice([0., 1, 0.5, 0.25, 1e-9], k)
        elif kind == 'lv':
            x[name] = rng.normal(size=(3, k)) * a * np.where(rng.integers(4, size=(3, k)) == 0, 0, 1)
    return x


def body(rng, k):
    """positions with many at the poles, on the antimeridian and on the equator of the body axes"""
    n = gen.nvec(rng, k)
    m = rng.integers(6, size=k)
    pole = np.vstack((gen.sign(rng, k), np.zeros(k), np.zeros(k)))
    close = gen.normalize(pole + np.vstack((np.zeros(k), rng.normal(size=(2, k)) * 10.0 ** np.where(rng.integers(3, size=k) == 0, rng.uniform(-140, -1, k),
                                                                                  rng.uniform(-20, -1, k)))))
    la = gen.lat(rng, k)
    anti = np.vstack((np.sin(la), gen.sign(rng, k) * rng.choice([0, 1e-140, 1e-17, 1e-9], k), np.cos(la)))
    n = np.where(m == 0, pole, n)
    n = np.where(m == 1, close, n)
    return np.ascontiguousarray(np.where(m == 2, anti, n))


def circle_defined(x, env):
    # converted end points may coincide
    return ref.norm(ref.circle(x['n'], x['m'])) > (1e-11 if env.op.oo else 0)


def everywhere(x):
    return np.ones(next(iter(x.values())).shape[-1], bool)


def not_opposite(x):
    return ref.norm(x['n'] + x['m']) > 1e-9


def apart(x, env):
    """A and B are clearly different points in space"""
    size = env.a + np.abs(x['z']) + np.abs(x['w'])
    return ref.norm(ref.n2p(x['n'], x['z'], env.a, env.f, env.R) - ref.n2p(x['m'], x['w'], env.a, env.f, env.R)) > 1e-9 * size


# columns in which an output is defined; everywhere for operations which are not listed
DEFINED = {
    'cross_track_distance': lambda x, e: circle_defined(x, e),
    'cross_track_distance euclidean': lambda x, e: circle_defined(x, e),
    'closest_point_on_great_circle': lambda x, e: circle_defined(x, e),
    'great_circle_normal': lambda x, e: circle_defined(x, e),
    'interpolate': lambda x, e: not_opposite(x),
    'GeoPath.interpolate': lambda x, e: not_opposite(x),
    'GeoPath.cross_track_distance': lambda x, e: circle_defined(x, e),
    'GeoPath.cross_track_distance euclidean': lambda x, e: circle_defined(x, e),
    'GeoPath.closest_point_on_great_circle': lambda x, e: circle_defined(x, e),
    'GeoPath.closest_point_on_path': lambda x, e: circle_defined(x, e),
    'intersect': lambda x, e: circles_cross(x, e),
    'GeoPath.intersect': lambda x, e: circles_cross(x, e),
}


def circles_cross(x, env):
    with np.errstate(all='ignore'):
        c, d = ref.circle(x['n'], x['m']), ref.circle(x['p'], x['q'])
        least = 1e-11 if env.op.oo else 0
        return (ref.norm(c) > least) & (ref.norm(d) > least) & (ref.norm(ref.cross(ref.unit(c), ref.unit(d))) > 1e-4)


def well_defined(o, x, env):
    env.op = o
    x = {name: env.send(t, x[name]) if t == 'n' else x[name] for name, t in o.inputs.items()}
    fn = DEFINED.get(o.name)
    ok = everywhere(x) if fn is None else np.asarray(fn(x, env))
    elev = apart(x, env) if 'el' in o.outputs else ok
    if o.name in ('mean_horizontal_position', 'Nvector.mean'):
        if ref.norm(x['n'].sum(axis=1)) < 1e-6:
            ok = ok & False
    if 'interp' in o.name.lower() and not o.columns:
        d = ref.norm(x['n'] + np.roll(x['n'], 1, axis=1)).min()
        if d < 1e-3 or 'smooth' in o.name:
            ok = ok & False
    return ok, elev


def fp_warnings(caught):
    return [str(w.message) for w in caught if issubclass(w.category, RuntimeWarning) and '/rtm/' not in w.filename]


def run_loud(ctx, o, env, x):
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter('always')
        with np.errstate(divide='warn', over='warn', invalid='warn', under='ignore'):
            out, raw = o.run(env, x)
    return out, raw, fp_warnings(caught)


ARITHMETIC = ('Nvector arithmetic',)


def check(ctx, o, env, x, out, ok, elev):
    size = env.a
    for name, t in o.inputs.items():
        if t in ('len', 'lv'):
            size = size + np.abs(x[name]).max()
    k = next(iter(x.values())).shape[-1]
    for name, t in o.outputs.items():
        y = np.asarray(out[name])
        if t == 'bool':
            ctx.true('a truth value: ' + o.name, (y == 0) | (y == 1), y)
            continue
        use = elev if name == 'el' else ok
        if not o.columns:
            if not use.all():
                continue
        elif y.shape[-1] == k:
            y = y[..., use]
        if y.size == 0:
            continue
        ctx.true('finite: ' + o.name, np.isfinite(y), (name, y, x, env.kinds))
        ctx.tag('finite columns: ' + o.name, y.shape[-1])
        if t == 'n' and o.name not in ARITHMETIC:
            ctx.close('unit vector: ' + o.name, ref.norm(y), np.ones(y.shape[-1]), 64 * EPS, (x, env.kinds))
        elif t == 'lat':
            ctx.true('range: ' + o.name, np.abs(y) <= TURN / 2, (name, y, x))
        elif t in ('lon', 'ang'):
            ctx.true('range: ' + o.name, np.abs(y) <= TURN, (name, y, x))
        elif t in ('R', 'RE'):
            eye = np.einsum('jik,jlk->ilk', y, y)
            ctx.close('rotation: ' + o.name, eye, np.broadcast_to(np.eye(3)[:, :, None], eye.shape), 64 * EPS, (x, env.kinds))
        elif t in ('len', 'vec', 'lv'):
            ctx.true('magnitude: ' + o.name, np.abs(y) <= 8 * size, (name, y, x))
    return


def hostile_run(ctx, rng, idx):
    o = OPS[idx % len(OPS)]
    env = environment(ctx, rng, o)
    k = 1 if not o.vector else int(rng.choice([1, 1, 2, 3, 5]))
    x = hostile(rng, o, k, env.a)
    if 'geodesic' in o.name or 'ellipsoid' in o.name or o.name.startswith('FrameE'):
        pass
    ok, elev = well_defined(o, x, env)
    if o.name == 'unit':
        x['t'] = np.abs(x['t'])
    if o.name == 'GeoPath.closest_point_on_path' and not ok.all():
        return
    if o.name.startswith('interp_nvectors') and k < 2:
        return
    out, _raw, loud = run_loud(ctx, o, env, x)
    check(ctx, o, env, x, out, ok, elev)
    if ok.all() and elev.all():
        ctx.eq('no floating-point warning: ' + o.name, loud, [], (x, env.kinds))


def scalar_run(ctx, rng, idx):
    ops = [o for o in OPS if o.oo and o.columns]
    o = ops[idx % len(ops)]
    env = sister(environment(ctx, rng, o), scalar=True)
    x = hostile(rng, o, 1, env.a)
    ok, elev = well_defined(o, x, env)
    if o.name == 'GeoPath.closest_point_on_path' and not ok.all():
        return
    out, _raw, loud = run_loud(ctx, o, env, x)
    check(ctx, o, env, x, out, ok, elev)
    if ok.all() and elev.all():
        ctx.eq('no floating-point warning: ' + o.name, loud, [], (x, env.kinds))


def undefined(ctx, rng, idx):
    """exactly undefined columns among others: NaN there and nowhere else"""
    nv = ctx.nv
    k = int(rng.choice([1, 2, 3, 5, 8]))
    a, b = gen.generic_pair(rng, k, 0.01)
    c, d = gen.generic_pair(rng, k, 0.01)
    bad = rng.random(k) < 0.4
    if rng.integers(4) == 0:
        bad[:] = rng.integers(2)
    opposite = rng.integers(2, size=k) == 0
    degenerate = np.where(opposite, -a, a)
    which = idx % 5
    nan = lambda y: np.isnan(np.asarray(y)).any(axis=0) if np.ndim(y) > 1 else np.isnan(y)
    label = 'NaN in exactly the undefined columns: '
    b2 = np.where(bad, degenerate, b)
    if which == 0:
        y = ctx.do('great_circle_normal', nv.great_circle_normal, a, b2)
        ctx.true(label + 'great_circle_normal', nan(y) == bad, (a, b2, y))
    elif which == 1:
        m = rng.integers(4, size=k)
        c2 = np.where(bad, np.choose(m, [a, b, c, a]), c)
        d2 = np.where(bad, np.choose(m, [b, a, c, b]), d)
        y, w = ctx.warned('intersect', nv.intersect, (a, b), (c2, d2))
        ctx.true(label + 'intersect', nan(y) == bad, (a, b, c2, d2, y))
        said = [str(v.message) for v in w if 'undefined' in str(v.message).lower() or 'equal' in str(v.message).lower()]
        ctx.eq('undefined intersections are reported', bool(said), bool(bad.any()), (a, b, c2, d2))
    elif which == 2:
        t = rng.uniform(0, 1, k)
        t = np.where(bad, 0.5, t)
        y = ctx.do('interpolate', nv.interpolate, (a, np.where(bad, -a, b)), t)
        ctx.true(label + 'interpolate', nan(y) == bad, (a, b, t, y))
        fr = nv.FrameE()
        z = rng.uniform(-100, 100, k)
        A, B = fr.Nvector(a, z), fr.Nvector(np.where(bad, -a, b), -z)
        y = ctx.do('GeoPath.interpolate', nv.GeoPath(A, B).interpolate, t)
        ctx.true(label + 'GeoPath.interpolate', (nan(y.normal) == bad) & ~nan(np.atleast_1d(y.z)), (a, b, t, y))
        # a series with opposite neighbours
        n = np.stack([a, np.where(bad, -a, b)], axis=-1)
        for i in range(k):
            y = ctx.do('interp_nvectors', nv.interp_nvectors, [0, 0.25, 0.5, 1], [0, 1], n[:, i])
            ctx.true(label + 'opposite neighbours', nan(y) == [False, False, bad[i], False], (n[:, i], y))
            y = ctx.do('Nvector.interpolate', fr.Nvector(n[:, i], [1, 2]).interpolate, [0, 0.25, 0.5, 1], [0, 1])
            ctx.true(label + 'opposite neighbours', nan(y.normal) == [False, False, bad[i], False], (n[:, i], y))
    elif which == 3:
        y = ctx.do('cross_track_distance', nv.cross_track_distance, (a, b2), c, method=('greatcircle', 'euclidean')[rng.integers(2)])
        ctx.true(label + 'cross_track_distance', nan(y) == bad, (a, b2, c, y))
        on = ctx.do('on_great_circle', nv.on_great_circle, (a, b2), a)
        ctx.true('never on an undefined circle', ~(np.asarray(on) & bad), (a, b2, on))
    else:
        kk = max(k, 2)
        n = np.cumsum(rng.normal(size=(3, kk)) * 0.2, axis=1) + np.array([[1], [2], [3.]])
        n = gen.normalize(n)
        t = np.cumsum(rng.uniform(0.1, 2, kk))
        ti = rng.uniform(t[0] - 3, t[-1] + 3, 9)
        ti[:2] = t[0], t[-1]
        out = (ti < t[0]) | (ti > t[-1])
        y = ctx.do('interp_nvectors', nv.interp_nvectors, ti, t, n)
        ctx.true(label + 'interp_nvectors', nan(y) == out, (ti, t, y))
        v = nv.FrameE().Nvector(n, np.arange(kk) * 1.0)
        y = ctx.do('Nvector.interpolate', v.interpolate, ti, t)
        ctx.true(label + 'Nvector.interpolate', (nan(y.normal) == out) & (nan(y.z) == out), (ti, t, y))
    ctx.tag('undefined columns', int(bad.sum()))


def chains(ctx, rng, idx):
    """longer histories which start at singular places"""
    nv = ctx.nv
    fr, a, f, R, ax = frame(ctx, rng)
    k = int(rng.choice([1, 2, 3]))
    n = np.ascontiguousarray(R.T @ body(rng, k))
    z = gen.depth(rng, k, a, big=False, deep=False)
    kind = KINDS[rng.integers(3)]
    P = make_point(ctx, kind, fr, n, z, R, a, f)
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter('always')
        with np.errstate(divide='warn', over='warn', invalid='warn', under='ignore'):
            for _ in range(6):
                g = ctx.do('to_geo_point', P.to_geo_point)
                az, d = gen.angle(rng, k), gen.angle(rng, k) * a * rng.choice([1, 1e-6, 1e-3, 0], k)
                how = rng.integers(5)
                if how == 0:
                    Q, _az = ctx.do('displace', g.displace, d, az, method='greatcircle')
                elif how == 1:
                    Q, _az = ctx.do('displace', g.displace, d, az)
                elif how == 2:
                    m = np.ascontiguousarray(R.T @ body(rng, k))
                    Q = ctx.do('P + delta', lambda: P.to_ecef_vector() + nv.delta_E(P, fr.Nvector(m, z)))
                elif how == 3:
                    L = ctx.do('FrameB', nv.FrameB, P, az, az / 2, 0.1)
                    v = ctx.do('Pvector', L.Pvector, rng.normal(size=(3, k)) * a * 1e-3)
                    Q = ctx.do('P + local', lambda: (P.to_ecef_vector() + v.to_ecef_vector()).to_nvector())
                else:
                    L = ctx.do('FrameL', nv.FrameL, P, az)
                    v = ctx.do('change_frame', P.to_ecef_vector().change_frame, L)
                    Q = ctx.do('and back', v.to_ecef_vector)
                e = ctx.do('to_ecef_vector', Q.to_ecef_vector)
                v = ctx.do('to_nvector', Q.to_nvector)
                ctx.true('chain stays finite', np.isfinite(e.pvector).all() and np.isfinite(v.normal).all()
                         and np.isfinite(v.z).all(), (how, P, Q))
                ctx.close('chain stays on the sphere of directions', ref.norm(v.normal), np.ones(k), 64 * EPS, (how, P, Q))
                ctx.true('chain stays near', ref.norm(e.pvector) < 1e3 * (a + np.abs(z)), (how, P, Q))
                # near the centre of the Earth directions are not defined
                P = Q if np.all(ref.norm(e.pvector) > 0.5 * a) else P
    ctx.eq('no floating-point warning in a chain', fp_warnings(caught), [], kind)


WORKLOADS = [('hostile_run', hostile_run, 9000, 200000), ('scalar_run', scalar_run, 2500, 50000),
             ('undefined', undefined, 2500, 50000), ('chains', chains, 1000, 20000)]
REQUIRE = ['finite: ' + o.name for o in OPS if 'bool' not in o.outputs.values() and o.name not in
           ('interp_nvectors smooth',)] + ['chain stays finite'] + [
    'NaN in exactly the undefined columns: ' + n for n in ('great_circle_normal', 'intersect', 'interpolate',
                                                         'cross_track_distance', 'interp_nvectors',
                                                         'GeoPath.interpolate', 'opposite neighbours')]
