"""C26: the length of n-vectors"""
import numpy as np

from rtm import gen, ref
from rtm.props.c02 import depth
from rtm.props.c12 import path_of
from rtm.props.common import EPS, R_of, frame, kw_R, to_double

TECHNIQUE = ('metamorphic monitor: n-vectors scaled by positive numbers give the same positions, frames and great '
             'circles; warning monitor on lengths around and far from 1')


def lengths(rng, k, extreme=True):
    m = rng.integers(4)
    if m == 0:
        return np.ones(k)
    if m == 1:
        return 1 + gen.sign(rng, k) * rng.uniform(0, 0.09, k)
    if m == 2 and extreme:
        return 10 ** rng.uniform(-100, 100, k)
    return 10 ** rng.uniform(-3, 3, k)


def expect(ctx, got, s, name):
    """warnings about lengths; which lengths of later columns are looked at is not specified"""
    msgs = [str(w.message) for w in got]
    d = np.abs(s - 1)
    if d[0] > 0.1 + 1e-9:
        ctx.true('wrong length is reported: ' + name, len(msgs) > 0, s)
        ctx.true('the warning speaks of the length', any('length' in m for m in msgs), msgs)
    elif (d < 1e-9).all():
        ctx.eq('no warning for unit vectors: ' + name, msgs, [], s)
    elif (d < 0.1 - 1e-9).all():
        ctx.eq('no warning within a tenth: ' + name, msgs, [], s)


def functional(ctx, rng, idx):
    nv = ctx.nv
    R, kind = gen.R_Ee(rng)
    k = gen.ncols(rng)
    n = gen.nvec(rng, k)
    s = lengths(rng, k)
    if rng.integers(3) == 0:     # rounded unit vectors
        s = 1 + rng.integers(-8, 9, k) * EPS
    if rng.integers(6) == 0:     # right at the limit, on both sides
        s = 1 + gen.sign(rng, 1) * (0.1 + rng.choice([1e-6, 1e-3, 0.05, -1e-6, -1e-3, -0.02])) * np.ones(k)
    v = gen.layout(rng, n * s)
    a, f = gen.ellipsoid(rng)
    z = depth(rng, n, a, f, R_of(R))
    which = idx % 4
    if which == 0:
        (lat, lon), w = ctx.warned('n_E2lat_lon', nv.n_E2lat_lon, v, **kw_R(R))
        ctx.close('latitude/longitude', ref.latlon2n(lat, lon, R_of(R)), n, 16 * EPS, (n, s))
        expect(ctx, w, s, 'n_E2lat_lon')
    elif which == 1:
        p, w = ctx.warned('n_EB_E2p_EB_E', nv.n_EB_E2p_EB_E, v, z, a=a, f=f, **kw_R(R))
        ctx.close('position', p, ref.n2p(n, z, a, f, R_of(R)), 32 * EPS * (a + np.abs(z)), (n, s, z, a, f))
        expect(ctx, w, s, 'n_EB_E2p_EB_E')
    else:
        if kind == 'random':    # directions close to the pole of random axes are rounded by the scaling
            n = np.where(ref.cos_lat(n, R) > 1e-3, n, np.array([[0.6], [0.0], [0.8]]))
            ok = ref.cos_lat(n, R) > 1e-3
        else:
            ok = np.ones(k, bool)
        v = n * s
        c = np.maximum(ref.cos_lat(n, R_of(R)), 1e-300)
        exact_pole = ref.cos_lat(n, R_of(R)) == 0
        ok &= exact_pole | (c > 1e-6)
        tol = np.where(exact_pole, 16 * EPS, 32 * EPS / c)
        want = np.array(ref.R_EN(n, R_of(R)))
        own = np.asarray(ctx.do('n_E2R_EN', nv.n_E2R_EN, n, **kw_R(R))).reshape(3, 3, -1)
        want[..., exact_pole] = own[..., exact_pole]     # which axes at the poles is not the point here
        if which == 2:
            M, w = ctx.warned('n_E2R_EN', nv.n_E2R_EN, v, **kw_R(R))
            expect(ctx, w, s, 'n_E2R_EN')
        else:
            wa = gen.angle(rng, k)
            M, w = ctx.warned('n_E_and_wa2R_EL', nv.n_E_and_wa2R_EL, v, wa, **kw_R(R))
            expect(ctx, w, s, 'n_E_and_wa2R_EL')
            want = ref.matmul(want, ref.elementary('z', wa))
            ok &= ~exact_pole       # other documented choice there
        M = np.asarray(M).reshape(3, 3, -1)
        ctx.close('local frame', M[..., ok], want[..., ok], np.broadcast_to(tol, (3, 3, k))[..., ok], (n, s))
    ctx.tag(('unit', 'wrong')[int(abs(s[0] - 1) > 0.1)])


def great_circles(ctx, rng, idx):
    nv = ctx.nv
    k = gen.ncols(rng)
    a, b = path_of(rng, k, 1e-3)
    s, t = lengths(rng, k, False), lengths(rng, k, False)
    same = bool(rng.integers(2))
    if same:
        t = s
    theta = np.asarray(ref.angle(a, b)).astype(float)
    cond = 1 / np.sin(theta)
    ratio = np.maximum(s / t, t / s)
    got, w = ctx.warned('great_circle_normal', nv.great_circle_normal, a * s, b * t)
    ctx.close('great-circle normal', got, ref.unit(ref.circle(a, b)), 16 * EPS * cond * ratio, (a, b, s, t))
    ctx.eq('no warning', [str(x.message) for x in w], [])
    c, d = path_of(rng, k, 1e-3)
    sc, sd = lengths(rng, k, False), lengths(rng, k, False)
    n1, n2 = ref.unit(ref.circle(a, b)), ref.unit(ref.circle(c, d))
    x = ref.cross(n1, n2)
    sin12 = np.asarray(ref.norm(x)).astype(float)
    side = np.abs(np.asarray(ref.dot(x, a)).astype(float))
    cond2 = 1 / np.sin(np.asarray(ref.angle(c, d)).astype(float))
    ratio2 = np.maximum(sc / sd, sd / sc)
    ok = (sin12 > 1e-3) & (side > 1e-3 * sin12)
    got, w = ctx.warned('intersect', nv.intersect, (a * s, b * t), (c * sc, d * sd))
    with np.errstate(all='ignore'):
        want = ref.unit(x) * np.where(ref.dot(x, a) < 0, -1, 1)
        tol = 64 * EPS * (cond * ratio + cond2 * ratio2) / sin12
    ctx.close('intersection', got[:, ok], want[:, ok], np.broadcast_to(tol, (3, k))[:, ok], (a, b, c, d, s, t, sc, sd))
    if ok.all():
        ctx.eq('no warning', [str(x.message) for x in w], [])


def objects(ctx, rng, idx):
    nv = ctx.nv
    fr, a, f, R, ax = frame(ctx, rng)
    k = gen.ncols(rng)
    n = gen.nvec(rng, k)
    s = lengths(rng, k)
    z = depth(rng, n, a, f, R)
    P = ctx.do('Nvector', fr.Nvector, n * s, z)
    g, w = ctx.warned('to_geo_point', P.to_geo_point)
    ctx.close('latitude/longitude', ref.latlon2n(g.latitude, g.longitude, R), n, 16 * EPS, (n, s))
    ctx.true('depth', np.array_equal(g.z, z), (g, z))
    expect(ctx, w, s, 'to_geo_point')
    e, w = ctx.warned('to_ecef_vector', P.to_ecef_vector)
    ctx.close('position', e.pvector, ref.n2p(n, z, a, f, R), 32 * EPS * (a + np.abs(z)), (n, s, z, a, f))
    expect(ctx, w, s, 'to_ecef_vector')
    d, w = ctx.warned('FrameN.R_EN', lambda: nv.FrameN(P).R_EN)
    expect(ctx, w, s, 'FrameN')
    ctx.close('down axis', np.asarray(d).reshape(3, 3, -1)[:, 2], -n, 16 * EPS, (n, s))
    ctx.do('unit', P.unit)
    ctx.close('normalised in place', P.normal, n, 8 * EPS, (n, s))
    ctx.true('depth', np.array_equal(P.z, z), z)
    _g, w = ctx.warned('to_geo_point', P.to_geo_point)
    ctx.eq('no warning for unit vectors: after unit', [str(x.message) for x in w], [])


def never(ctx, rng, idx):
    """what the library itself produces never triggers the warning"""
    nv = ctx.nv
    fr, a, f, R, ax = frame(ctx, rng)
    k = gen.ncols(rng)
    n, m = gen.generic_pair(rng, k, 1e-2)
    z = gen.depth(rng, k, a, deep=False)
    lat, lon = (to_double(x) for x in ref.n2latlon(n, R))
    A = ctx.do('GeoPoint', fr.GeoPoint, lat, lon, z)
    B = ctx.do('Nvector', fr.Nvector, m, z)

    def work():
        out = [A.to_ecef_vector().to_geo_point(), nv.delta_N(A, B), nv.delta_L(A, B, 0.3), B.mean().to_geo_point(),
               nv.GeoPath(A, B).interpolate(0.4).to_geo_point(), nv.FrameB(A).R_EN,
               nv.GeoPath(A, B).closest_point_on_great_circle(A), A.displace(0.1 * a, 0.5, method='greatcircle'),
               A.distance_and_azimuth(B, method='greatcircle'), nv.GeoPath(A, B).cross_track_distance(B)]
        v = (A.to_ecef_vector() + nv.delta_E(A, B)).to_nvector()
        return out, v.to_geo_point(), nv.n_EA_E_and_n_EB_E2azimuth(n, m, a=a, f=f, R_Ee=R)
    _out, w = ctx.warned('operations', work)
    ctx.eq('no warning for results of the library', [str(x.message) for x in w], [], (n, m))


WORKLOADS = [('functional', functional, 4000, 80000), ('great_circles', great_circles, 2000, 40000),
             ('objects', objects, 1500, 30000), ('never', never, 800, 15000)]
REQUIRE = ['latitude/longitude', 'position', 'local frame', 'great-circle normal', 'intersection',
           'wrong length is reported: n_E2lat_lon', 'wrong length is reported: n_EB_E2p_EB_E',
           'wrong length is reported: n_E2R_EN', 'wrong length is reported: n_E_and_wa2R_EL',
           'no warning within a tenth: n_E2lat_lon', 'no warning within a tenth: n_EB_E2p_EB_E',
           'no warning within a tenth: n_E2R_EN', 'no warning within a tenth: n_E_and_wa2R_EL',
           'no warning for unit vectors: n_E2lat_lon', 'no warning for unit vectors: n_EB_E2p_EB_E']
