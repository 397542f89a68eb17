"""C29: the unit of length and the ellipsoid"""
import numpy as np
import pyproj

from rtm import catalog, gen, ref
from rtm.props.c18 import environment, sister
from rtm.props.common import EPS, PI, KINDS, make_point, to_double

TECHNIQUE = ('metamorphic monitor: every operation of the catalogue in two units of length, and on spheres against '
             'spherical trigonometry; reference monitor on ellipsoids far from WGS-84')
TRUSTS = ' and pyproj (PROJ geodesics)'
TOL = 1e-11
OPS = catalog.OPS
LENGTHS = ('len', 'lv', 'vec')


def scale_of(rng):
    """feet, kilometres, nautical miles, Earth radii, anything"""
    k = rng.integers(4)
    if k == 0:
        return float(rng.choice([1e-3, 1 / 0.3048, 1 / 1852.0, 1 / 6378137.0, 1e3, 39.37]))
    if k == 1:
        return float(2.0 ** rng.integers(-30, 30))
    return float(10 ** rng.uniform(-8, 8))


def scaled(x, types, s):
    return {n: v * s if types[n] in LENGTHS else v for n, v in x.items()}


def scaling(ctx, rng, idx):
    o = OPS[idx % len(OPS)]
    env = environment(ctx, rng, o)
    s = scale_of(rng)
    k = 1 if not o.vector else int(rng.choice([1, 2, 3, 4]))
    if o.oo:
        other = catalog.Env(ctx, a=env.a * s, f=env.f, axes=env.axes, degrees=env.degrees, kinds=env.kinds)
    else:
        other = sister(env, a=env.a * s)
    x = catalog.inputs(rng, o, k, env.a)
    scalar = k == 1 and o.oo and bool(rng.integers(2))
    r1, _raw = o.run(sister(env, scalar=scalar), x)
    r2, _raw = o.run(sister(other, scalar=scalar), scaled(x, o.inputs, s))
    catalog.compare(ctx, 'unit of length', o, scaled(r2, o.outputs, 1 / s), r1, TOL, env.a, (s, x, env.kinds))


def default_radius(ctx, rng, idx):
    """functions with a radius: proportional to it; the default is the mean radius of the Earth"""
    nv = ctx.nv
    k = gen.ncols(rng)
    a, b = gen.generic_pair(rng, k)
    c = gen.nvec(rng, k)
    r = float(10 ** rng.uniform(-3, 9))
    for name, fn, args, kw in (
            ('great_circle_distance', nv.great_circle_distance, (a, b), {}),
            ('euclidean_distance', nv.euclidean_distance, (a, b), {}),
            ('cross_track_distance', nv.cross_track_distance, ((a, b), c), dict(method='greatcircle')),
            ('cross_track_distance e', nv.cross_track_distance, ((a, b), c), dict(method='euclidean'))):
        one = ctx.do(name, fn, *args, radius=1.0, **kw)
        ctx.close('proportional to the radius', ctx.do(name, fn, *args, radius=r, **kw), one * r, 8 * EPS * PI * r, (name, a, b, c))
        ctx.close('default radius', ctx.do(name, fn, *args, **kw), one * 6371009.0, 8 * EPS * PI * 6371009, (name, a, b, c))
    # tolerances are lengths: on or off at a distance of the order of atol
    d = 10 ** rng.uniform(-6, -2)
    n = np.cross(a, b, axis=0)
    n = n / np.sqrt((n * n).sum(axis=0))
    mid = a + b
    mid = mid / np.sqrt((mid * mid).sum(axis=0))
    off = mid * np.cos(d) + n * np.sin(d)
    near = (np.sum(a * b, axis=0) > -0.99) & (ref.chord(a, b) > 10 * d)
    for fn in (nv.on_great_circle, nv.on_great_circle_path):
        for factor in (0.5, 2):
            got = ctx.do('on', fn, (a, b), off, radius=r, atol=d * r * factor)
            ctx.true('the tolerance is a length', got[near] == (factor > 1), (a, b, d, r, factor))


def ellipsoid(rng):
    """anything but the default"""
    if rng.integers(3) == 0:
        return float(rng.choice([1.0, 6378.137, 3963.19, 1e-3, 1e12])), float(rng.choice([0.2, 0.1, 0.05, 1 / 100., 1e-3, 0, -0.05]))
    return gen.ellipsoid(rng)


def honoured(ctx, rng, idx):
    """results on the ellipsoid of the frame"""
    nv = ctx.nv
    a, f = ellipsoid(rng)
    ax = ('e', 'E')[rng.integers(2)]
    R = ref.R_AXES[ax]
    fr = ctx.do('FrameE', nv.FrameE, a=a, f=f, axes=ax)
    k = int(rng.choice([1, 1, 2, 3]))
    n, m = gen.generic_pair(rng, k, 0.02, 2.5)
    z, w = rng.uniform(-0.3, 0.02, k) * a, rng.uniform(-0.3, 0.02, k) * a
    scalar = k == 1 and bool(rng.integers(2))
    A = make_point(ctx, KINDS[rng.integers(3)], fr, n, z, R, a, f, scalar)
    B = make_point(ctx, KINDS[rng.integers(3)], fr, m, w, R, a, f, scalar)
    info = (a, f, ax, n, m, z, w)
    e, g = ref.n2p(n, z, a, f, R), ref.n2p(m, w, a, f, R)
    tol = 1e-12 * a
    at1 = np.atleast_1d
    ctx.close('position', ctx.do('to_ecef_vector', A.to_ecef_vector).pvector, e, tol, info)
    v = ctx.do('to_nvector', A.to_ecef_vector().to_nvector)
    ctx.close('n-vector', v.normal, n, 1e-11, info)
    ctx.close('depth', at1(v.z), z, 1e-11 * a, info)
    ctx.close('delta', ctx.do('delta_E', nv.delta_E, A, B).pvector, g - e, tol, info)
    north, east = ref.north_east(n, R)
    d = ctx.do('delta_to', A.delta_to, B)
    away = ref.cos_lat(n, R) > 1e-3
    want = np.stack([ref.dot(north, g - e), ref.dot(east, g - e), -ref.dot(n, g - e)])
    ctx.close('local delta', d.pvector[:, away], want[:, away], 1e-9 * a, info)
    path = ctx.do('GeoPath', nv.GeoPath, A, B)
    rA, rB = ref.norm(e), ref.norm(g)
    ang = ref.angle(n, m)
    ctx.close('track distance', at1(ctx.do('track', path.track_distance)), ang * (rA + rB) / 2, tol * 4, info)
    ctx.close('track distance', at1(ctx.do('track', path.track_distance, method='euclidean')), ref.chord(n, m) * (rA + rB) / 2,
              tol * 4, info)
    c = gen.nvec(rng, k)
    C = make_point(ctx, 'nvec', fr, c, w, R, a, f, scalar)
    xt = -ref.dot(ref.unit(ref.circle(n, m)), c)
    ctx.close('cross track distance', at1(ctx.do('xt', path.cross_track_distance, C)), np.arcsin(xt) * (rA + rB) / 2, 1e-7 * a, info)
    ctx.close('cross track distance', at1(ctx.do('xt', path.cross_track_distance, C, method='euclidean')), xt * (rA + rB) / 2,
              1e-11 * a, info)
    G, H = ctx.do('to_geo_point', A.to_geo_point), ctx.do('to_geo_point', B.to_geo_point)
    s, p, q = ctx.do('distance_and_azimuth', G.distance_and_azimuth, H, method='greatcircle')
    ctx.close('great circle distance', at1(s), ang * (rA + rB) / 2, tol * 4, info)
    s, p, q = ctx.do('distance_and_azimuth', G.distance_and_azimuth, H)
    zz = (z + w) / 2
    lat, lon = [to_double(u) for u in ref.n2latlon(n, R)]
    la2, lo2 = [to_double(u) for u in ref.n2latlon(m, R)]
    best = np.array([pyproj.Geod(a=float(a - zz[i]), f=float(f)).inv(lon[i], lat[i], lo2[i], la2[i], radians=True)[2] for i in range(k)])
    ctx.close('geodesic distance', at1(s), best, 1e-11 * a, info)
    t = ctx.do('track', path.track_distance, method='ellipsoid')
    ctx.close('geodesic distance', at1(t), best, 1e-11 * a, info)
    az, dist = rng.uniform(-PI, PI, k), rng.uniform(-2, 2, k) * a
    az, dist = (float(az[0]), float(dist[0])) if scalar else (az, dist)
    P, _az = ctx.do('displace', G.displace, dist, az, method='greatcircle')
    got = ref.latlon2n(at1(P.latitude), at1(P.longitude), R)
    ctx.close('displaced', got[:, away], ref.destination(n, at1(dist) / rA, at1(az), R)[:, away], 1e-9, info)
    P, _az = ctx.do('displace', G.displace, dist, az)
    got = ref.latlon2n(at1(P.latitude), at1(P.longitude))
    want = np.empty((3, k), dtype=np.longdouble)
    for i in range(k):
        lo, la, _b = pyproj.Geod(a=float(a - z[i]), f=float(f)).fwd(lon[i], lat[i], at1(az)[i], at1(dist)[i], radians=True)
        want[:, i:i + 1] = ref.latlon2n(np.array([la]), np.array([lo]))
    ctx.close('displaced', got[:, away], want[:, away], 1e-9, info)
    # functional interface
    kw = dict(a=a, f=f, R_Ee=R)
    ctx.close('position', ctx.do('n_EB_E2p_EB_E', nv.n_EB_E2p_EB_E, n, z, **kw), e, tol, info)
    p = ctx.do('n_EA_E_and_n_EB_E2p_AB_E', nv.n_EA_E_and_n_EB_E2p_AB_E, n, m, z, w, **kw)
    ctx.close('delta', p, g - e, tol, info)
    u, t = ctx.do('n_EA_E_and_p_AB_E2n_EB_E', nv.n_EA_E_and_p_AB_E2n_EB_E, n, p, z, **kw)
    ctx.close('n-vector', u, m, 1e-11, info)
    ctx.close('depth', t, w, 1e-11 * a, info)
    u, t = ctx.do('p_EB_E2n_EB_E', nv.p_EB_E2n_EB_E, to_double(g), **kw)
    ctx.close('n-vector', u, m, 1e-11, info)
    ctx.close('depth', t, w, 1e-11 * a, info)
    h, i = ref.n2p(n, 0 * z, a, f, R), ref.n2p(m, 0 * z, a, f, R)
    want = np.arctan2(ref.dot(east, i - h), ref.dot(north, i - h))
    got = ctx.do('n_EA_E_and_n_EB_E2azimuth', nv.n_EA_E_and_n_EB_E2azimuth, n, m, **kw)
    ctx.close_ang('azimuth', got[away], want[away], 1e-8 / np.maximum(np.abs(np.sin(ang[away])), 1e-3), info)


def sphere(ctx, rng, idx):
    """without flattening the geodesics are great circles"""
    nv = ctx.nv
    a = float(10 ** rng.uniform(-3, 9))
    fr = ctx.do('FrameE', nv.FrameE, a=a, f=(0, 0.0)[rng.integers(2)], axes=('e', 'E')[rng.integers(2)])
    k = int(rng.choice([1, 2, 3]))
    n, m = gen.generic_pair(rng, k, 0.02, 2.5)
    z = rng.uniform(-0.3, 0.3, k) * a
    ll = [to_double(u) for u in ref.n2latlon(n)] + [to_double(u) for u in ref.n2latlon(m)]
    A, B = ctx.do('GeoPoint', fr.GeoPoint, ll[0], ll[1], z), ctx.do('GeoPoint', fr.GeoPoint, ll[2], ll[3], z)
    s, p, q = ctx.do('distance_and_azimuth', A.distance_and_azimuth, B)
    t, u, v = ctx.do('distance_and_azimuth', A.distance_and_azimuth, B, method='greatcircle')
    info = (a, n, m, z)
    ctx.close('sphere: distance', s, t, 1e-12 * a, info)
    away = (np.cos(ll[0]) > 1e-3) & (np.cos(ll[2]) > 1e-3)
    ctx.close_ang('sphere: azimuths', p[away], u[away], 1e-8, info)
    ctx.close_ang('sphere: azimuths', q[away], v[away], 1e-8, info)
    az, dist = rng.uniform(-PI, PI, k), rng.uniform(-2, 2, k) * a
    P, x = ctx.do('displace', A.displace, dist, az)
    Q, y = ctx.do('displace', A.displace, dist, az, method='greatcircle')
    ctx.close('sphere: displaced', ref.latlon2n(P.latitude, P.longitude)[:, away], ref.latlon2n(Q.latitude, Q.longitude)[:, away],
              1e-11, info)
    ok = away & (np.cos(P.latitude) > 1e-3) & (np.abs(np.sin(dist / (a - z))) > 1e-3)
    ctx.close_ang('sphere: azimuths', x[ok], y[ok], 1e-7, info)
    e = ctx.do('to_ecef_vector', A.to_ecef_vector)
    ctx.close('sphere: radius', e.length, a - z, 8 * EPS * a, info)
    ctx.close('sphere: direction', e.pvector, (a - z) * A.to_nvector().normal, 16 * EPS * a, info)
    ctx.close('sphere: chord', ctx.do('delta', nv.delta_E, A, B).length, ref.chord(n, m) * (a - z), 32 * EPS * a, info)


WORKLOADS = [('scaling', scaling, 4500, 90000), ('default_radius', default_radius, 800, 15000),
             ('honoured', honoured, 2000, 40000), ('sphere', sphere, 1200, 20000)]
REQUIRE = ['unit of length: ' + o.name for o in OPS] + [
    'proportional to the radius', 'default radius', 'the tolerance is a length', 'position', 'n-vector', 'depth',
    'local delta', 'track distance', 'cross track distance', 'great circle distance', 'geodesic distance', 'displaced',
    'azimuth', 'sphere: distance', 'sphere: azimuths', 'sphere: displaced', 'sphere: radius']
