"""C30: omitted arguments, keywords and superseded names"""
import warnings

import numpy as np

from rtm import catalog, gen, ref
from rtm.props.common import KINDS, PI, frame, make_point

TECHNIQUE = ('differential monitor: every call with a random subset of its optional arguments left out, by keyword or '
             'by position, against the call with the documented defaults; superseded names against their '
             'replacements, with a monitor on the warnings they emit')
TOL = 1e-14

A0, F0, RADIUS = 6378137, 1.0 / 298.257223563, 6371009.0
R0 = ref.R_DEFAULT


def flat(x):
    """numbers in a result, objects included"""
    if isinstance(x, (tuple, list)):
        return [y for v in x for y in flat(v)]
    for names in (('latitude', 'longitude', 'z'), ('normal', 'z'), ('pvector',), ('a', 'f', 'R_Ee'), ('R_EN',)):
        if all(hasattr(x, n) for n in names):
            return [np.asarray(getattr(x, n)) for n in names] + (flat(x.frame) if names[0] in (
                'latitude', 'normal', 'pvector') else [])
    return [np.asarray(x)]


class Call(object):
    def __init__(self, fn, required, optional):
        """required: [(name, value)], optional: [(name, documented default, other value)]"""
        self.fn, self.required, self.optional = fn, required, optional


CALLS = {}


def call(fn):
    CALLS[fn.__name__] = fn
    return fn


class World(object):
    def __init__(self, ctx, rng):
        nv = ctx.nv
        self.nv, self.rng = nv, rng
        self.k = k = int(rng.choice([1, 2, 3, 4]))
        self.a, self.f = gen.ellipsoid(rng)
        kind = rng.integers(3)
        self.R = (np.eye(3), gen.PERM24[rng.integers(24)].copy(), gen.rotation(rng))[kind]
        o = catalog.BY_NAME['GeoPath.intersect']
        x = catalog.inputs(rng, o, k, 6.4e6)
        self.n, self.m, self.p, self.q = (np.ascontiguousarray(np.einsum('ji,jk->ik', R0, x[s])) for s in 'nmpq')
        self.z, self.w, self.v, self.u = x['z'], x['w'], x['v'], x['u']
        self.az = rng.uniform(-3, 3, k)
        self.r = float(rng.uniform(0.5, 2) * 1e6)
        self.frame = nv.FrameE()
        self.A, self.B, self.C, self.D = (
            make_point(ctx, KINDS[rng.integers(3)], self.frame, n, z, R0, A0, F0)
            for n, z in ((self.n, self.z), (self.m, self.w), (self.p, self.v), (self.q, self.u)))
        self.path = nv.GeoPath(self.A, self.B)
        self.lat, self.lon = rng.uniform(-1.5, 1.5, k), rng.uniform(-3, 3, k)
        self.lat2, self.lon2 = rng.uniform(-1.5, 1.5, k), rng.uniform(-3, 3, k)

    def ell(self):
        return [('a', A0, self.a), ('f', F0, self.f), ('R_Ee', R0, self.R)]

    def near(self, limit):
        """numbers around a limit, on either side"""
        rng = self.rng
        return limit * gen._pick(rng, self.k, [lambda m: 10 ** rng.uniform(-1, 1, m),
                                               lambda m: 1 + gen.sign(rng, m) * 10 ** rng.uniform(-5, -1, m)])

    def beside(self, off, along):
        c = ref.unit(ref.circle(self.n, self.m))
        u = ref.unit(self.n)
        foot = u * np.cos(along) + ref.cross(c, u) * np.sin(along)
        return (foot * np.cos(off) - c * np.sin(off)).astype(float)


@call
def lat_lon2n_E(s):
    return Call(s.nv.lat_lon2n_E, [('latitude', s.lat), ('longitude', s.lon)], [('R_Ee', R0, s.R)])


@call
def n_E2lat_lon(s):
    return Call(s.nv.n_E2lat_lon, [('n_E', s.n)], [('R_Ee', R0, s.R)])


@call
def n_EB_E2p_EB_E(s):
    return Call(s.nv.n_EB_E2p_EB_E, [('n_EB_E', s.n)], [('depth', 0, s.z)] + s.ell())


@call
def p_EB_E2n_EB_E(s):
    p = s.nv.n_EB_E2p_EB_E(s.n, s.z)
    return Call(s.nv.p_EB_E2n_EB_E, [('p_EB_E', p)], [('a', A0, A0 * s.rng.uniform(0.9, 1)), ('f', F0, s.f),
                                                     ('R_Ee', R0, s.R)])


@call
def n_EA_E_and_n_EB_E2p_AB_E(s):
    return Call(s.nv.n_EA_E_and_n_EB_E2p_AB_E, [('n_EA_E', s.n), ('n_EB_E', s.m)],
                [('z_EA', 0, s.z), ('z_EB', 0, s.w)] + s.ell())


@call
def n_EA_E_and_p_AB_E2n_EB_E(s):
    p = s.nv.n_EA_E_and_n_EB_E2p_AB_E(s.n, gen.near(s.rng, s.n, np.full(s.k, 0.1)), s.z, s.w)
    return Call(s.nv.n_EA_E_and_p_AB_E2n_EB_E, [('n_EA_E', s.n), ('p_AB_E', p)],
                [('z_EA', 0, s.z), ('a', A0, A0 * s.rng.uniform(0.9, 1)), ('f', F0, s.f), ('R_Ee', R0, s.R)])


@call
def n_EA_E_distance_and_azimuth2n_EB_E(s):
    return Call(s.nv.n_EA_E_distance_and_azimuth2n_EB_E, [('n_EA_E', s.n), ('distance_rad', s.lat), ('azimuth', s.az)],
                [('R_Ee', R0, s.R)])


@call
def n_EA_E_and_n_EB_E2azimuth(s):
    return Call(s.nv.n_EA_E_and_n_EB_E2azimuth, [('n_EA_E', s.n), ('n_EB_E', s.m)], s.ell())


@call
def great_circle_distance(s):
    return Call(s.nv.great_circle_distance, [('n_EA_E', s.n), ('n_EB_E', s.m)], [('radius', RADIUS, s.r)])


@call
def euclidean_distance(s):
    return Call(s.nv.euclidean_distance, [('n_EA_E', s.n), ('n_EB_E', s.m)], [('radius', RADIUS, s.r)])


@call
def cross_track_distance(s):
    return Call(s.nv.cross_track_distance, [('path', (s.n, s.m)), ('n_EB_E', s.p)],
                [('method', 'greatcircle', 'euclidean'), ('radius', RADIUS, s.r)])


@call
def on_great_circle(s):
    radius = (RADIUS, 1.0)[s.rng.integers(2)]
    atol = 1e-8 if radius == 1 else float(s.near(0.1)[0])
    P = s.beside(s.near(atol / radius), s.rng.uniform(0, 6, s.k))
    return Call(s.nv.on_great_circle, [('path', (s.n, s.m)), ('n_EB_E', P)],
                [('radius', RADIUS, 1.0), ('atol', 1e-8, atol)])


@call
def on_great_circle_path(s):
    radius = (RADIUS, 1.0)[s.rng.integers(2)]
    atol = 1e-8 if radius == 1 else float(s.near(0.1)[0])
    P = s.beside(s.near(atol / radius), s.rng.uniform(0.2, 0.9, s.k) * ref.angle(s.n, s.m))
    return Call(s.nv.on_great_circle_path, [('path', (s.n, s.m)), ('n_EB_E', P)],
                [('radius', RADIUS, 1.0), ('atol', 1e-8, atol)])


def series(s):
    k = int(s.rng.integers(6, 12))
    t = np.cumsum(s.rng.uniform(0.5, 1.5, k))
    n = gen.normalize(np.array([[1.], [0.5], [0.2]]) + s.rng.normal(size=(3, k)) * 0.3)
    # also outside the smoothed range
    ti = np.linspace(t[0], t[-1], 13)
    opts = [('kind', 'linear', ('cubic', 'nearest', 'quadratic')[s.rng.integers(3)]),
            ('window_length', 0, int(s.rng.choice([3, 4, 5]))), ('polyorder', 2, int(s.rng.integers(2))),
            ('mode', 'interp', ('nearest', 'mirror', 'constant', 'wrap')[s.rng.integers(4)]),
            ('cval', 0.0, float(s.rng.uniform(0.5, 1)))]
    return k, t, n, ti, opts


@call
def interp_nvectors(s):
    k, t, n, ti, opts = series(s)
    return Call(s.nv.interp_nvectors, [('t_i', ti), ('t', t), ('nvectors', n)], opts)


@call
def Nvector_interpolate(s):
    k, t, n, ti, opts = series(s)
    v = s.frame.Nvector(n, s.rng.uniform(-100, 100, k))
    return Call(v.interpolate, [('t_i', ti), ('t', t)], opts)


@call
def n_E2R_EN(s):
    return Call(s.nv.n_E2R_EN, [('n_E', s.n)], [('R_Ee', R0, s.R)])


@call
def n_E_and_wa2R_EL(s):
    return Call(s.nv.n_E_and_wa2R_EL, [('n_E', s.n), ('wander_azimuth', s.az)], [('R_Ee', R0, s.R)])


@call
def E_rotation(s):
    return Call(s.nv.E_rotation, [], [('axes', 'e', 'E')])


@call
def unit(s):
    v = s.n * s.rng.uniform(0.5, 3, s.k) * (s.rng.random(s.k) < 0.5)
    return Call(s.nv.unit, [('vector', v)], [('norm_zero_vector', 1, np.nan)])


def numbers(s):
    rng = s.rng
    b = rng.normal(size=s.k) * 10 ** rng.uniform(-16, 3, s.k)
    a = b + gen.sign(rng, s.k) * gen._pick(rng, s.k, [
        lambda m: s.near(1e-9)[:1] * np.abs(b).max(), lambda m: s.near(1e-7)[:1] * np.abs(b).max(),
        lambda m: s.near(1e-14)[:1], np.zeros])
    for i in range(s.k):
        if rng.integers(8) == 0:
            a[i] = b[i] = np.nan
        elif rng.integers(2):
            a[i] = b[i] + s.near((1e-9, 1e-7)[rng.integers(2)])[i] * b[i]
    return a, b


@call
def isclose(s):
    a, b = numbers(s)
    return Call(s.nv.util.isclose, [('a', a), ('b', b)],
                [('rtol', 1e-9, 1e-6), ('atol', 0.0, 1e-12), ('equal_nan', False, True)])


@call
def allclose(s):
    a, b = numbers(s)
    return Call(s.nv.util.allclose, [('a', a[:1]), ('b', b[:1])],
                [('rtol', 1e-7, 1e-9), ('atol', 1e-14, 1e-12), ('equal_nan', False, True)])


# ---------------------------------------------------------------------------- objects
def other_frame(s):
    return s.nv.FrameE(a=s.a, f=s.f, axes=('e', 'E')[s.rng.integers(2)])


@call
def GeoPoint(s):
    return Call(lambda *a, **k: [(lambda p: (p, p.to_ecef_vector()))(s.nv.GeoPoint(*a, **k))],
                [('latitude', s.lat), ('longitude', s.lon)],
                [('z', 0, s.z), ('frame', s.frame, other_frame(s)), ('degrees', False, True)])


@call
def FrameE_GeoPoint(s):
    fr = other_frame(s)
    return Call(lambda *a, **k: [(lambda p: (p, p.to_ecef_vector()))(fr.GeoPoint(*a, **k))],
                [('latitude', s.lat), ('longitude', s.lon)], [('z', 0, s.z), ('degrees', False, True)])


GeoPoint.only_keywords = FrameE_GeoPoint.only_keywords = ('degrees',)


@call
def Nvector(s):
    return Call(lambda *a, **k: [(lambda p: (p, p.to_ecef_vector()))(s.nv.Nvector(*a, **k))], [('normal', s.n)],
                [('z', 0, s.z), ('frame', s.frame, other_frame(s))])


@call
def FrameE_Nvector(s):
    fr = other_frame(s)
    return Call(lambda *a, **k: [(lambda p: (p, p.to_ecef_vector()))(fr.Nvector(*a, **k))], [('normal', s.n)],
                [('z', 0, s.z)])


@call
def ECEFvector(s):
    p = s.nv.n_EB_E2p_EB_E(s.n, s.z)
    return Call(lambda *a, **k: [(lambda p: (p, p.to_nvector()))(s.nv.ECEFvector(*a, **k))], [('pvector', p)],
                [('frame', s.frame, s.nv.FrameE(axes='E'))])


@call
def FrameE(s):
    return Call(s.nv.FrameE, [], [('a', A0, s.a), ('f', F0, s.f), ('name', 'WGS84', None), ('axes', 'e', 'E')])


@call
def FrameE_direct(s):
    fr = s.nv.FrameE(axes=('e', 'E')[s.rng.integers(2)])
    d = s.rng.uniform(1e5, 3e7, s.k)
    return Call(fr.direct, [('lat_a', s.lat / 2), ('lon_a', s.lon), ('azimuth', s.az), ('distance', d)],
                [('z', 0, s.z), ('long_unroll', False, True), ('degrees', False, True)])


@call
def FrameE_inverse(s):
    fr = s.nv.FrameE(axes=('e', 'E')[s.rng.integers(2)])
    return Call(fr.inverse, [('lat_a', s.lat / 2), ('lon_a', s.lon), ('lat_b', s.lat2 / 2), ('lon_b', s.lon2)],
                [('z', 0, s.z), ('long_unroll', False, True), ('degrees', False, True)])


@call
def displace(s):
    d = s.rng.uniform(1e5, 3e7, s.k)
    return Call(s.A.to_geo_point().displace, [('distance', d), ('azimuth', s.az)],
                [('long_unroll', False, True), ('degrees', False, True), ('method', 'ellipsoid', 'greatcircle')])


@call
def distance_and_azimuth(s):
    return Call(s.A.to_geo_point().distance_and_azimuth, [('point', s.B)],
                [('long_unroll', False, True), ('degrees', False, True), ('method', 'ellipsoid', 'greatcircle')])


@call
def delta_L(s):
    return Call(s.nv.delta_L, [('point_a', s.A), ('point_b', s.B)], [('wander_azimuth', 0, s.az)])


@call
def FrameL(s):
    return Call(s.nv.FrameL, [('point', s.A)], [('wander_azimuth', 0, s.az)])


@call
def FrameB(s):
    return Call(s.nv.FrameB, [('point', s.A)], [('yaw', 0, s.az), ('pitch', 0, s.lat), ('roll', 0, s.lon),
                                               ('degrees', False, True)])


def average_radius(s):
    A, B = (X.to_ecef_vector().length for X in (s.A, s.B))
    return (A + B) / 2


@call
def GeoPath_track_distance(s):
    return Call(s.path.track_distance, [], [('method', 'greatcircle', 'euclidean'),
                                            ('radius', average_radius(s), s.r)])


@call
def GeoPath_track_distance_ellipsoid(s):
    return Call(lambda method: s.path.track_distance(method), [('method', 'ellipsoid')], [])


@call
def GeoPath_cross_track_distance(s):
    return Call(s.path.cross_track_distance, [('point', s.C)], [('method', 'greatcircle', 'euclidean'),
                                                               ('radius', average_radius(s), s.r)])


@call
def GeoPath_on_great_circle(s):
    # a tiny Earth, so that the default tolerance is far above rounding
    fr = s.nv.FrameE(a=1.0, f=F0)
    path = s.nv.GeoPath(fr.Nvector(s.n, 0 * s.z), fr.Nvector(s.m, 0 * s.z))
    atol = float(s.near(1e-6)[0])
    limit = (1e-8, atol)[s.rng.integers(2)]
    P = fr.Nvector(s.beside(s.near(limit), s.rng.uniform(0, 6, s.k)), 0 * s.z)
    return Call(path.on_great_circle, [('point', P)], [('atol', 1e-8, atol)])


@call
def GeoPath_on_path(s):
    rng = s.rng
    fr = s.nv.FrameE(a=1.0, f=F0)
    depth = 10 ** rng.uniform(-4, -1, s.k) * (rng.random(s.k) < 0.6)
    path = s.nv.GeoPath(fr.Nvector(s.n, depth), fr.Nvector(s.m, depth))
    atol = float(10 ** rng.uniform(-8, -4))
    rtol = float(10 ** rng.uniform(-7, -4))
    t = rng.uniform(0.1, 0.9, s.k) * ref.angle(s.n, s.m)
    off = np.zeros(s.k)
    dz = np.zeros(s.k)
    what = rng.integers(3)
    if what == 0:
        off = s.near((1e-8, atol)[rng.integers(2)])
    elif what == 1:
        dz = s.near((1e-8, atol)[rng.integers(2)])
    else:
        dz = s.near((1e-6, rtol)[rng.integers(2)]) * depth
    P = fr.Nvector(s.beside(off, t), depth + dz)
    return Call(path.on_path, [('point', P)], [('method', 'greatcircle', 'greatcircle'), ('rtol', 1e-6, rtol),
                                               ('atol', 1e-8, atol)])


@call
def GeoPath_on_path_ellipsoid(s):
    rng = s.rng
    fr = s.nv.FrameE(a=1.0, f=F0)
    zero = np.zeros(s.k)
    A = fr.Nvector(s.n, zero).to_geo_point()
    B = fr.Nvector(s.m, zero).to_geo_point()
    dist, az, _ = A.distance_and_azimuth(B)
    d = dist * rng.uniform(0.1, 0.9, s.k)
    atol = float(10 ** rng.uniform(-8, -4))
    rtol = float(10 ** rng.uniform(-7, -4))
    turn, dz = zero, zero
    what = rng.integers(3)
    if what == 0:
        turn = s.near((1e-6, rtol)[rng.integers(2)])
    elif what == 1:
        dz = s.near((1e-8, atol)[rng.integers(2)])
    else:       # next to the start, in the other direction
        d, turn = s.near((1e-8, atol)[rng.integers(2)]), PI
    P, _ = A.displace(d, az + turn)
    P = fr.GeoPoint(P.latitude, P.longitude, dz)
    path = s.nv.GeoPath(A, B)
    return Call(path.on_path, [('point', P), ('method', 'ellipsoid')], [('rtol', 1e-6, rtol), ('atol', 1e-8, atol)])


def same(ctx, label, got, want, info):
    g, w = flat(got), flat(want)
    ctx.eq(label, len(g), len(w), (got, want, info))
    for x, y in zip(g, w):
        if y.dtype.kind in 'bOSU':
            ctx.shape(label, x, y.shape)
            ctx.true(label, x == y, (x, y, info))
        else:
            size = np.abs(y[np.isfinite(y)]).max() if np.isfinite(y).any() else 1.
            ctx.close(label, x, y, TOL * max(size, 1e-30), info)


def defaults(ctx, rng, idx):
    name = list(CALLS)[idx % len(CALLS)]
    s = World(ctx, rng)
    c = ctx.do('prepare ' + name, CALLS[name], s)
    values, kw, full = [], {}, {}
    for key, default, other in c.optional:
        if rng.integers(2):
            full[key] = default
        else:
            full[key] = kw[key] = other
    keys = [key for key, _d, _o in c.optional]
    if name == 'FrameE' and (full['name'] is None):
        full['name'] = 'Bessel 1841'       # a and f of the named ellipsoid are the defaults then
        kw['name'] = 'Bessel 1841'
        full['a'] = kw.get('a', 6377397.155)
        full['f'] = kw.get('f', 1.0 / 299.1528128)
    required = [v for _n, v in c.required]
    # the full call, by keyword
    want = ctx.do(name, c.fn, *required, **full)
    # left out
    got = ctx.do(name, c.fn, *required, **kw)
    same(ctx, 'left out: ' + name, got, want, (kw, c.required))
    for key in set(full) - set(kw):
        ctx.tag('{}: {} left out'.format(name, key))
    # everything by keyword
    got = ctx.do(name, c.fn, **dict(dict(c.required), **full))
    same(ctx, 'by keyword: ' + name, got, want, (full, c.required))
    # as many as possible by position
    last = int(rng.integers(len(keys) + 1))
    if keys and name not in ('FrameE_GeoPoint',):
        pos = [full[key] for key in keys[:last]]
        rest = {key: kw[key] for key in keys[last:] if key in kw}
        got = ctx.do(name, c.fn, *(required + pos), **rest)
        same(ctx, 'by position: ' + name, got, want, (pos, rest, c.required))


def caught(ctx, label, fn, *args):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        out = ctx.do(label, fn, *args)
    return out, w


def superseded(ctx, rng, idx):
    """old names do what their replacements do, and say that they are deprecated"""
    s = World(ctx, rng)
    nv = ctx.nv
    other = nv.GeoPath(s.C, s.D)
    V = s.A.to_nvector()
    names = ['WGS84', 'wgs72', 'Bessel 1841', 'clarke1880', 5, 17]
    e = names[rng.integers(len(names))]
    pairs = [('diff_positions', 'delta_E', lambda: nv.diff_positions(s.A, s.B), lambda: nv.delta_E(s.A, s.B)),
             ('mean_horizontal_position', 'mean', V.mean_horizontal_position, V.mean),
             ('intersection', 'intersect', lambda: s.path.intersection(other), lambda: s.path.intersect(other)),
             ('positionA', 'point_a', lambda: s.path.positionA, lambda: s.path.point_a),
             ('positionB', 'point_b', lambda: s.path.positionB, lambda: s.path.point_b),
             ('select_ellipsoid', 'get_ellipsoid', lambda: nv.select_ellipsoid(e), lambda: nv.get_ellipsoid(e))]
    old, new, f, g = pairs[idx % len(pairs)]
    got, w = caught(ctx, old, f)
    want, w2 = caught(ctx, new, g)
    label = 'superseded: ' + old
    ctx.true(label, type(got) is type(want), (got, want))
    if old == 'select_ellipsoid':
        ctx.eq(label, tuple(got), tuple(want))
    else:
        same(ctx, label, got, want, old)
    if old.startswith('position'):
        ctx.true(label, got is want, (got, want))
    dep = [str(x.message) for x in w if issubclass(x.category, DeprecationWarning)]
    ctx.true('deprecated names say so: ' + old, any(new in m and old in m for m in dep), (old, [str(x) for x in w]))
    dep = [str(x.message) for x in w2 if issubclass(x.category, DeprecationWarning) and 'deprecat' in str(x.message)]
    ctx.eq('current names do not: ' + new, dep, [])


WORKLOADS = [('defaults', defaults, 6000, 120000), ('superseded', superseded, 240, 4000)]
REQUIRE = ['left out: ' + n for n in CALLS] + ['by position: ' + n for n in CALLS if n not in (
    'FrameE_GeoPoint', 'GeoPath_track_distance_ellipsoid')] + ['superseded: ' + n for n in (
        'diff_positions', 'mean_horizontal_position', 'intersection', 'positionA', 'positionB', 'select_ellipsoid')]
