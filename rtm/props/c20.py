"""C20: representations of a position and the two APIs are interchangeable"""
import numpy as np

from rtm import catalog, gen, ref
from rtm.props.c02 import curvature_margin, depth
from rtm.props.c18 import environment, sister
from rtm.props.common import EPS, KINDS, frame, make_point, to_double

TECHNIQUE = ('differential monitor: every object-oriented operation with its positions in different representations, '
             'chains of conversions against the original position, functional against object-oriented results')
TOL = 1e-11
OPS = catalog.OBJECTS


def count(rng, o):
    return 1 if not o.vector else int(rng.choice([1, 2, 3, 3, 4, 5]))


def representations(ctx, rng, idx):
    """the same positions as GeoPoint, Nvector and ECEFvector, in any combination"""
    ops = [o for o in OPS if o.points]
    o = ops[idx % len(ops)]
    env = environment(ctx, rng, o)
    x = catalog.inputs(rng, o, count(rng, o), env.a)
    scalar = bool(rng.integers(2)) and len(x['n'][0]) == 1 and o.name != 'Pvector.to_ecef_vector'
    k1 = {p: 'nvec' for p in o.points}
    k2 = {p: KINDS[rng.integers(3)] for p in o.points}
    r1, raw1 = o.run(sister(env, kinds=k1, scalar=scalar), x)
    r2, raw2 = o.run(sister(env, kinds=k2, scalar=scalar), x)
    for name in o.outputs:
        ctx.eq('same shape for every representation', np.shape(raw1[name]), np.shape(raw2[name]), (o.name, k2))
    catalog.compare(ctx, 'representation', o, r2, r1, TOL, env.a, (k2, x))
    ctx.tag('{} {}'.format(o.name, '-'.join(k2.values())))


METHOD = dict(geo='to_geo_point', nvec='to_nvector', ecef='to_ecef_vector')


def chain(ctx, rng, idx):
    """conversions in any order"""
    nv = ctx.nv
    fr, a, f, R, ax = frame(ctx, rng)
    k = gen.ncols(rng)
    n = gen.nvec(rng, k)
    z = depth(rng, n, a, f, R)
    kind = KINDS[rng.integers(3)]
    scalar = k == 1 and bool(rng.integers(2))
    P = make_point(ctx, kind, fr, n, z, R, a, f, scalar)
    turned = 1
    if kind == 'geo' and rng.integers(3) == 0:      # longitudes are given modulo full turns
        turns = rng.integers(-3, 4, k)
        P = ctx.do('GeoPoint', nv.GeoPoint, P.latitude, P.longitude + 2 * np.pi * (turns[0] if scalar else turns), P.z, frame=fr)
        turned = 4
        ctx.tag('full turns')
    steps = [KINDS[i] for i in rng.integers(3, size=rng.integers(2, 8))]
    types = dict(geo=nv.GeoPoint, nvec=nv.Nvector, ecef=nv.ECEFvector)
    kinds = [kind] + steps
    for to in steps:
        P = ctx.do(METHOD[to], getattr(P, METHOD[to]))
        ctx.true('type', type(P) is types[to], P)
        ctx.true('frame kept', P.frame is fr or P.frame == fr, P)
        ctx.eq('scalar kept', bool(P.scalar), scalar, (kinds, P))
    p = ref.n2p(n, z, a, f, R)
    radius = ref.norm(p)
    size = a + np.abs(z)
    # every step may round the position by a few eps of its size; near the centre of curvature the
    # direction is sensitive to that
    tol = 16 * (len(kinds) + turned) * EPS * size
    margin = np.minimum(curvature_margin(a, f, z), radius)
    got = ctx.do('to_ecef_vector', P.to_ecef_vector).pvector
    ctx.close('position', got, p, tol * np.maximum(1, size / margin), (kinds, n, z, a, f, ax))
    v = ctx.do('to_nvector', P.to_nvector)
    ctx.close('direction', v.normal, ref.unit(n), tol / np.minimum(margin, size), (kinds, n, z, a, f, ax))
    ctx.close('depth', np.atleast_1d(v.z), z, tol, (kinds, n, z, a, f, ax))
    ctx.close('unit vector', ref.norm(v.normal), np.ones(k), 8 * EPS, v.normal)
    ctx.tag('{} -> {}'.format(kind, steps[-1]))


def local(ctx, rng, idx):
    """vectors decomposed in local frames are positions as well, above and below the ground"""
    nv = ctx.nv
    fr, a, f, R, ax = frame(ctx, rng)
    k = gen.ncols(rng)
    n, m = gen.nvec(rng, k), gen.nvec(rng, k)
    z = depth(rng, n, a, f, R)
    w = gen.depth(rng, k, a, deep=False)
    A = make_point(ctx, KINDS[rng.integers(3)], fr, n, z, R, a, f)
    O = make_point(ctx, KINDS[rng.integers(3)], fr, m, w, R, a, f)
    which = rng.integers(3)
    if which == 0:
        F = ctx.do('FrameN', nv.FrameN, O)
    elif which == 1:
        F = ctx.do('FrameL', nv.FrameL, O, gen.angle(rng, k))
    else:
        F = ctx.do('FrameB', nv.FrameB, O, *(gen.angle(rng, k) for _i in range(3)))
    v = ctx.do('change_frame', A.to_ecef_vector().change_frame, F)
    ctx.true('vector in the local frame', type(v) is nv.Pvector and v.frame is F, v)
    p = ref.n2p(n, z, a, f, R)
    size = a + np.abs(z)
    margin = np.minimum(curvature_margin(a, f, z), ref.norm(p))
    tol = 64 * EPS * size
    back = ctx.do('Pvector.to_ecef_vector', v.to_ecef_vector)
    ctx.true('type', type(back) is nv.ECEFvector and back.frame == fr, back)
    ctx.close('position from the local frame', back.pvector, p, tol, (n, z, m, w, a, f, ax))
    u = ctx.do('Pvector.to_nvector', v.to_nvector)
    ctx.true('type', type(u) is nv.Nvector and u.frame == fr, u)
    ctx.close('n-vector from the local frame', u.normal, ref.unit(n), tol / np.minimum(margin, size), (n, z, m, w))
    ctx.close('depth from the local frame', np.atleast_1d(u.z), z, tol, (n, z, m, w, a, f, ax))
    g = ctx.do('Pvector.to_geo_point', v.to_geo_point)
    ctx.true('type', type(g) is nv.GeoPoint and g.frame == fr, g)
    ctx.close('geo point from the local frame', ref.latlon2n(g.latitude, g.longitude, R), ref.unit(n),
              tol / np.minimum(margin, size), (n, z, m, w))
    ctx.close('depth from the local frame', np.atleast_1d(g.z), z, tol, (n, z, m, w, a, f, ax))
    ctx.tag('local frame, above the ground', (z < 0).sum())
    ctx.tag('local frame, below the ground', (z > 0).sum())


def no_op(ctx, rng, idx):
    """a position which is converted to what it is stays what it is"""
    fr, a, f, R, ax = frame(ctx, rng)
    k = gen.ncols(rng)
    n = gen.nvec(rng, k)
    z = gen.depth(rng, k, a, deep=False)
    for kind in KINDS:
        P = make_point(ctx, kind, fr, n, z, R, a, f)
        Q = ctx.do(METHOD[kind], getattr(P, METHOD[kind]))
        for name in dict(geo=('latitude', 'longitude', 'z'), nvec=('normal', 'z'), ecef=('pvector',))[kind]:
            ctx.true('identity conversion', np.array_equal(getattr(P, name), getattr(Q, name)), (P, Q))
        ctx.true('identity conversion', type(P) is type(Q))


# ---------------------------------------------------------------------------- functional == object-oriented
PAIRS = {}


def pair(fn):
    PAIRS[fn.__name__] = fn
    return fn


class Setup(object):
    """three or four positions in one frame, as objects and as arrays"""

    def __init__(self, ctx, rng, k):
        self.ctx, self.nv = ctx, ctx.nv
        self.frame, self.a, self.f, self.R, self.ax = frame(ctx, rng)
        o = catalog.BY_NAME['GeoPath.intersect']
        x = catalog.inputs(rng, o, k, self.a)
        self.k = k
        self.n, self.m, self.p, self.q = (
            np.ascontiguousarray(np.einsum('ji,jk->ik', self.R, x[s])) for s in 'nmpq')
        self.z, self.w, self.v, self.u = x['z'], x['w'], x['v'], x['u']
        self.A, self.B, self.C, self.D = (
            make_point(ctx, KINDS[rng.integers(3)], self.frame, n, z, self.R, self.a, self.f)
            for n, z in ((self.n, self.z), (self.m, self.w), (self.p, self.v), (self.q, self.u)))
        self.path = ctx.do('GeoPath', self.nv.GeoPath, self.A, self.B)
        self.kw = dict(a=self.a, f=self.f, R_Ee=self.R)
        self.az, self.el, self.ro = rng.uniform(-3, 3, (3, k))
        self.d = rng.uniform(0.05, 2.5, k) * self.a
        self.t = rng.uniform(0.02, 0.98, k)

    def length(self, n, z):
        return to_double(ref.norm(ref.n2p(n, z, self.a, self.f, self.R)))

    def radius(self):
        return (self.length(self.n, self.z) + self.length(self.m, self.w)) / 2


@pair
def to_nvector(s):
    lat, lon = (to_double(v) for v in ref.n2latlon(s.n, s.R))
    yield s.nv.lat_lon2n_E(lat, lon, s.R), s.frame.GeoPoint(lat, lon, s.z).to_nvector().normal, 1
    g = s.A.to_geo_point()
    yield s.nv.lat_lon2n_E(g.latitude, g.longitude, s.R), s.A.to_nvector().normal, 1


@pair
def to_geo_point(s):
    lat, lon = s.nv.n_E2lat_lon(s.n, s.R)
    g = s.frame.Nvector(s.n, s.z).to_geo_point()
    yield lat, g.latitude, 1
    yield lon, g.longitude, 1
    yield s.z, g.z, 1


@pair
def to_ecef_vector(s):
    yield s.nv.n_EB_E2p_EB_E(s.n, s.z, **s.kw), s.A.to_ecef_vector().pvector, s.a


@pair
def from_ecef_vector(s):
    p = s.A.to_ecef_vector().pvector
    n, z = s.nv.p_EB_E2n_EB_E(p, **s.kw)
    v = s.frame.ECEFvector(p, scalar=False).to_nvector()
    yield n, v.normal, 1
    yield z, v.z, s.a


@pair
def delta_E(s):
    want = s.nv.n_EA_E_and_n_EB_E2p_AB_E(s.n, s.m, s.z, s.w, **s.kw)
    yield want, s.nv.delta_E(s.A, s.B).pvector, s.a
    yield want, (s.B.to_ecef_vector() - s.A.to_ecef_vector()).pvector, s.a
    yield want, s.nv.objects.diff_positions(s.A, s.B).pvector, s.a


@pair
def add_delta(s):
    d = s.nv.delta_E(s.A, s.B)
    n, z = s.nv.n_EA_E_and_p_AB_E2n_EB_E(s.n, d.pvector, s.z, **s.kw)
    v = (s.A.to_ecef_vector() + d).to_nvector()
    yield n, v.normal, 1
    yield z, v.z, s.a


@pair
def delta_N(s):
    p = s.nv.n_EA_E_and_n_EB_E2p_AB_E(s.n, s.m, s.z, s.w, **s.kw)
    R = s.nv.n_E2R_EN(s.n, s.R).reshape(3, 3, -1)
    want = np.einsum('jik,jk->ik', R, p)
    yield want, s.nv.delta_N(s.A, s.B).pvector, s.a
    yield want, s.A.delta_to(s.B).pvector, s.a
    yield want, s.nv.delta_E(s.A, s.B).change_frame(s.nv.FrameN(s.A)).pvector, s.a


@pair
def delta_L(s):
    p = s.nv.n_EA_E_and_n_EB_E2p_AB_E(s.n, s.m, s.z, s.w, **s.kw)
    R = s.nv.n_E_and_wa2R_EL(s.n, s.az, s.R).reshape(3, 3, -1)
    want = np.einsum('jik,jk->ik', R, p)
    yield want, s.nv.delta_L(s.A, s.B, s.az).pvector, s.a
    yield want, s.nv.delta_E(s.A, s.B).change_frame(s.nv.FrameL(s.A, s.az)).pvector, s.a


@pair
def azimuth(s):
    want = s.nv.n_EA_E_and_n_EB_E2azimuth(s.n, s.m, **s.kw)
    A, B = s.frame.Nvector(s.n, np.zeros(s.k)), s.frame.Nvector(s.m, np.zeros(s.k))
    yield want, s.nv.delta_N(A, B).azimuth, 1
    yield want, A.to_geo_point().distance_and_azimuth(B, method='greatcircle')[1], 1


@pair
def local_frames(s):
    yield s.nv.n_E2R_EN(s.n, s.R), s.nv.FrameN(s.A).R_EN, 1
    yield s.nv.n_E_and_wa2R_EL(s.n, s.az, s.R), s.nv.FrameL(s.A, s.az).R_EN, 1
    B = s.nv.mdot(s.nv.n_E2R_EN(s.n, s.R), s.nv.zyx2R(s.az, s.el, s.ro))
    yield B, s.nv.FrameB(s.A, s.az, s.el, s.ro).R_EN, 1


@pair
def distances(s):
    r = s.radius()
    yield s.nv.great_circle_distance(s.n, s.m, r), s.path.track_distance(), s.a
    yield s.nv.great_circle_distance(s.n, s.m, s.d), s.path.track_distance(radius=s.d), s.a
    yield s.nv.euclidean_distance(s.n, s.m, r), s.path.track_distance(method='euclidean'), s.a
    yield s.nv.great_circle_distance(s.n, s.m, r), s.A.to_geo_point().distance_and_azimuth(
        s.B, method='greatcircle')[0], s.a
    same = s.frame.Nvector(s.n, s.z).to_geo_point()
    yield s.path.track_distance(method='ellipsoid'), same.distance_and_azimuth(s.B)[0], s.a


@pair
def ellipsoid(s):
    g, h = s.A.to_geo_point(), s.B.to_geo_point()
    for deg in (False, True):
        want = s.frame.inverse(*(_ll(g, deg) + _ll(h, deg)), z=(s.z + s.w) / 2, degrees=deg)
        for x, y, scale in zip(want, g.distance_and_azimuth(s.B, degrees=deg), (s.a, 1, 1)):
            yield x, y, scale
        az = np.rad2deg(s.az) if deg else s.az
        lat, lon, azb = s.frame.direct(*(_ll(g, deg) + (az, s.d)), z=s.z, degrees=deg)
        P, azb2 = g.displace(s.d, az, degrees=deg)
        yield lat, _ll(P, deg)[0], 1
        yield lon, _ll(P, deg)[1], 1
        yield azb, azb2, 1


def _ll(g, deg):
    return (g.latitude_deg, g.longitude_deg) if deg else (g.latitude, g.longitude)


@pair
def displace(s):
    want = s.nv.n_EA_E_distance_and_azimuth2n_EB_E(s.n, s.d / s.length(s.n, s.z), s.az, s.R)
    P, _az = s.A.to_geo_point().displace(s.d, s.az, method='greatcircle')
    yield want, P.to_nvector().normal, 1


@pair
def cross_track(s):
    r, P = s.radius(), (s.n, s.m)
    yield s.nv.cross_track_distance(P, s.p, radius=r), s.path.cross_track_distance(s.C), s.a
    yield s.nv.cross_track_distance(P, s.p, radius=s.d), s.path.cross_track_distance(s.C, radius=s.d), s.a
    yield s.nv.cross_track_distance(P, s.p, method='euclidean', radius=r), s.path.cross_track_distance(
        s.C, method='euclidean'), s.a


@pair
def great_circle(s):
    P = (s.n, s.m)
    v = s.path.closest_point_on_great_circle(s.C).to_nvector()
    yield s.nv.closest_point_on_great_circle(P, s.p), v.normal, 1
    x = s.path.intersect(s.nv.GeoPath(s.C, s.D))
    yield s.nv.intersect(P, (s.p, s.q)), x.normal, 1
    yield s.nv.interpolate(P, s.t), s.path.interpolate(s.t).normal, 1


@pair
def predicates(s):
    tol = 1e-6 * s.a
    on = s.nv.interpolate((s.n, s.m), s.t)
    z = (s.z + s.w) / 2
    for n in (on, s.p, -on):
        C = s.frame.Nvector(n, z)
        yield s.nv.on_great_circle((s.n, s.m), n, s.radius(), tol), s.path.on_great_circle(C, atol=tol), 1
        yield s.nv.on_great_circle_path((s.n, s.m), n, s.radius(), tol), s.path.on_path(C, atol=tol), 1


@pair
def series(s):
    yield s.nv.mean_horizontal_position(s.n), s.A.to_nvector().mean().normal, 1
    v = s.frame.Nvector(s.n, s.z)
    yield s.nv.mean_horizontal_position(s.n), v.mean().normal, 1
    if s.k > 1:
        t = np.arange(s.k) * 1.5
        ti = np.linspace(0, t[-1], 2 * s.k + 1)
        yield s.nv.interp_nvectors(ti, t, s.n), v.interpolate(ti, t).normal, 1
    if s.k > 4:
        kw = dict(kind='cubic', window_length=3, polyorder=1, mode='nearest')
        yield s.nv.interp_nvectors(ti, t, s.n, **kw), v.interpolate(ti, t, **kw).normal, 1


@pair
def accessors(s):
    """what a path says about its end points"""
    for got, X, Y in ((s.path.nvectors(), s.A.to_nvector(), s.B.to_nvector()),
                      (s.path.geo_points(), s.A.to_geo_point(), s.B.to_geo_point()),
                      (s.path.ecef_vectors(), s.A.to_ecef_vector(), s.B.to_ecef_vector())):
        for g, w in zip(got, (X, Y)):
            for name in ('normal', 'latitude', 'longitude', 'pvector', 'z'):
                if hasattr(w, name):
                    yield getattr(w, name), getattr(g, name), s.a if name in ('z', 'pvector') else 1
            assert type(g) is type(w)
    for g, w in zip(s.path.nvector_normals(), (s.n, s.m)):
        yield w, g, 1
    g = s.A.to_geo_point()
    for x, y in zip(g.latlon, (g.latitude, g.longitude, g.z)):
        yield x, y, s.a
    for x, y in zip(g.latlon_deg, (g.latitude_deg, g.longitude_deg, g.z)):
        yield x, y, s.a


def apis(ctx, rng, idx):
    name = list(PAIRS)[idx % len(PAIRS)]
    k = int(rng.choice([1, 2, 3, 4, 5, 6]))
    s = Setup(ctx, rng, k)
    results = ctx.do(name, lambda: list(PAIRS[name](s)))
    for i, (want, got, scale) in enumerate(results):
        label = 'functional is object-oriented: ' + name
        if np.asarray(want).dtype == bool:
            ctx.true(label, np.asarray(want) == np.asarray(got), (i, want, got, vars(s)))
        else:
            want = np.asarray(want)
            got = np.asarray(got)
            got = got.reshape(want.shape) if got.size == want.size and k == 1 else got
            ctx.close(label, got, want, TOL * scale, (i, s.n, s.m, s.p, s.q, s.z, s.w, s.a, s.f))


WORKLOADS = [('representations', representations, 4000, 80000), ('chain', chain, 4000, 80000),
             ('local', local, 2500, 50000), ('no_op', no_op, 300, 3000), ('apis', apis, 2400, 40000)]
REQUIRE = ['direction', 'depth', 'position', 'frame kept', 'scalar kept', 'identity conversion',
           'position from the local frame', 'depth from the local frame'] + [
    'functional is object-oriented: ' + n for n in PAIRS] + ['representation: ' + o.name for o in OPS if o.points]
