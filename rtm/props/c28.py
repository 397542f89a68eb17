"""C28: degrees and radians"""
import numpy as np

from rtm import catalog, gen, ref
from rtm.props.c18 import environment, sister
from rtm.props.common import EPS, PI, KINDS, frame, make_point, to_double

TECHNIQUE = ('metamorphic monitor: every operation with a degrees switch in both units on the same physical angles, '
             'over all methods and options; attributes in degrees against those in radians')
OPS = [o for o in catalog.OPS if o.degrees]
TOL = 1e-12
D = 180 / ref.PI


def operations(ctx, rng, idx):
    o = OPS[idx % len(OPS)]
    env = environment(ctx, rng, o)
    k = 1 if not o.vector else int(rng.choice([1, 2, 3, 5]))
    x = catalog.inputs(rng, o, k, env.a)
    scalar = k == 1 and bool(rng.integers(2))
    r, _raw = o.run(sister(env, degrees=False, scalar=scalar), x)
    d, _raw = o.run(sister(env, degrees=True, scalar=scalar), x)
    catalog.compare(ctx, 'degrees', o, d, r, TOL, env.a, (x, env.kinds, scalar))


def numbers(rng, k, scalar):
    """angles in degrees as integers, floats, single precision"""
    how = rng.integers(4)
    lat, lon, az = np.rad2deg(gen.lat(rng, k)), np.rad2deg(gen.lon(rng, k, turns=True)), np.rad2deg(gen.angle(rng, k))
    if how == 0:
        lat, lon, az = [np.rint(v).astype(int) for v in (lat, lon, az)]
    elif how == 1:
        lat, lon, az = [np.rint(v * 8) / 8 for v in (lat, lon, az)]
    if scalar:
        return [v[0].item() for v in (lat, lon, az)]
    return [lat, lon, az]


def radians(x):
    return to_double(ref.ld(x) / D)


def plain(v, scalar):
    return float(v) if scalar else v



def points(ctx, rng, idx):
    """construction and attributes"""
    nv = ctx.nv
    fr, a, f, R, ax = frame(ctx, rng)
    k = gen.ncols(rng)
    scalar = k == 1 and bool(rng.integers(2))
    lat, lon, _az = numbers(rng, k, scalar)
    z = gen.depth(rng, k, a)
    z = float(z[0]) if scalar else z
    make, kw = ((nv.GeoPoint, dict(frame=fr)), (fr.GeoPoint, {}))[rng.integers(2)]
    if rng.integers(2):
        P = ctx.do('GeoPoint', make, lat, lon, z, degrees=True, **kw)
    else:
        P = ctx.do('GeoPoint', make, latitude=lat, longitude=lon, z=z, degrees=True, **kw)
    Q = ctx.do('GeoPoint', make, plain(radians(lat), scalar), plain(radians(lon), scalar), z,
               **(dict(kw, degrees=False) if rng.integers(2) else kw))
    info = (lat, lon, z)
    for X in (P, Q):
        for got, want in ((X.latitude, ref.ld(lat) / D), (X.longitude, ref.ld(lon) / D)):
            ctx.close('attribute in radians', got, want, 4 * EPS * (1e-300 + np.abs(want)), info)
        for got, want in ((X.latitude_deg, lat), (X.longitude_deg, lon)):
            ctx.close('attribute in degrees', got, want, 4 * EPS * (1e-300 + np.abs(want)), info)
        ctx.true('depth is not an angle', np.array_equal(np.broadcast_to(X.z, np.shape(z)), z), info)
        two = ctx.do('latlon', lambda: X.latlon)
        ctx.true('latlon', len(two) == 3 and all(np.array_equal(u, v) for u, v in zip(two, (X.latitude, X.longitude, X.z))), info)
        two = ctx.do('latlon_deg', lambda: X.latlon_deg)
        ctx.true('latlon_deg', len(two) == 3 and all(np.array_equal(u, v) for u, v in zip(
            two, (X.latitude_deg, X.longitude_deg, X.z))), info)
        ctx.eq('scalar', bool(X.scalar), scalar, info)
    e, g = ctx.do('to_ecef_vector', P.to_ecef_vector), ctx.do('to_ecef_vector', Q.to_ecef_vector)
    ctx.close('same position', e.pvector, g.pvector, 32 * EPS * (a + np.abs(z)) * (1 + np.abs(np.asarray(lon) / 60.0)), info)
    ctx.true('equal', P == Q, info)
    v = ctx.do('to_nvector', P.to_nvector)
    h = ctx.do('to_geo_point', v.to_geo_point)
    ctx.close('attribute in degrees', h.latitude_deg, ref.ld(h.latitude) * D, 4 * EPS * 90, info)
    ctx.close('attribute in degrees', h.longitude_deg, ref.ld(h.longitude) * D, 4 * EPS * 180, info)
    ctx.true('range in degrees', (np.abs(h.latitude_deg) <= 90 * (1 + 4 * EPS)) & (np.abs(h.longitude_deg) <= 180 * (1 + 4 * EPS)), info)


def displacements(ctx, rng, idx):
    """displace and distance_and_azimuth, all methods and options, hostile angles; only angles are converted"""
    nv = ctx.nv
    fr, a, f, R, ax = frame(ctx, rng)
    k = min(gen.ncols(rng), 5)
    scalar = k == 1 and bool(rng.integers(2))
    lat, lon, az = numbers(rng, k, scalar)
    z = np.minimum(gen.depth(rng, k, a), 0.5 * a)
    d = a * gen._pick(rng, k, [lambda m: rng.uniform(0, 3, m), lambda m: 10 ** rng.uniform(-6, 0, m), np.zeros,
                               lambda m: rng.uniform(-3, 0, m), lambda m: rng.uniform(0, 20, m)])
    z, d = (float(z[0]), float(d[0])) if scalar else (z, d)
    mode = ('greatcircle', 'ellipsoid', None)[idx % 3]
    kw = {} if mode is None else dict(method=mode)
    unroll = bool(rng.integers(2))
    if unroll:
        kw['long_unroll'] = True
    A = ctx.do('GeoPoint', nv.GeoPoint, lat, lon, z, frame=fr, degrees=True)
    P, p = ctx.do('displace', A.displace, d, az, degrees=True, **kw)
    Q, q = ctx.do('displace', A.displace, d, plain(radians(az), scalar), **(dict(kw, degrees=False) if rng.integers(2) else kw))
    info = (lat, lon, az, z, d, kw, a, f)
    turns = 1 + np.abs(d) / a + np.abs(np.asarray(az)) / 60.0
    n, m = (ref.latlon2n(np.atleast_1d(X.latitude), np.atleast_1d(X.longitude)) for X in (P, Q))
    ctx.close('displaced in degrees: position', n, m, TOL * np.atleast_1d(turns), info)
    ctx.true('displaced in degrees: depth', np.array_equal(P.z, Q.z), info)
    steep = TOL * turns / np.maximum(np.cos(P.latitude), 1e-6)
    ok = (np.cos(P.latitude) > 1e-4) & (np.cos(A.latitude) > 1e-4)
    if mode == 'greatcircle':   # the course is that from B back to A
        ok &= np.abs(np.sin(d / np.atleast_1d(A.to_ecef_vector().length).reshape(np.shape(d)))) > 1e-3
        steep = steep * 1e3
    sure = lambda u: np.where(ok, u, 0)
    ctx.close_ang('displaced in degrees: azimuth', sure(ref.ld(p) / D), sure(q), steep, info)
    if unroll and mode != 'greatcircle':
        # the same number of turns (not for lines along meridians which may pass a pole on either side)
        fine = ok & (np.abs(np.sin(ref.ld(az) / D)) > 1e-3)
        ctx.close('displaced in degrees: unrolled longitude', np.where(fine, P.longitude, 0), np.where(fine, Q.longitude, 0),
                  1e-8, info)
        ctx.tag('unrolled')
    s, aza, azb = ctx.do('distance_and_azimuth', A.distance_and_azimuth, P, degrees=True, **kw)
    t, ara, arb = ctx.do('distance_and_azimuth', A.distance_and_azimuth, P, **(dict(kw, degrees=False) if rng.integers(2) else kw))
    ctx.close('distance does not depend on the unit', s, t, 1e-12 * a, info)
    apart = np.abs(np.sin(np.asarray(t) / a)) > 1e-3
    ok = ok & apart
    sure = lambda u: np.where(ok, u, 0)
    ctx.close_ang('azimuths in degrees', sure(ref.ld(aza) / D), sure(ara), 1e-7, info)
    ctx.close_ang('azimuths in degrees', sure(ref.ld(azb) / D), sure(arb), 1e-7, info)
    in_range = (np.abs(aza) <= 180 * (1 + 4 * EPS)) & (np.abs(azb) <= 180 * (1 + 4 * EPS)) & (
        np.abs(ara) <= PI * (1 + 4 * EPS)) & (np.abs(arb) <= PI * (1 + 4 * EPS))
    ctx.true('azimuth range', in_range, info)


def frame_methods(ctx, rng, idx):
    fr, a, f, R, ax = frame(ctx, rng)
    k = min(gen.ncols(rng), 5)
    scalar = k == 1 and bool(rng.integers(2))
    lat, lon, az = numbers(rng, k, scalar)
    lat2, lon2, _az = numbers(rng, k, scalar)
    z, d = np.minimum(gen.depth(rng, k, a), 0.5 * a), a * rng.uniform(0, 7, k)
    z, d = (float(z[0]), float(d[0])) if scalar else (z, d)
    kw = dict(long_unroll=bool(rng.integers(2))) if rng.integers(2) else {}
    info = (lat, lon, az, lat2, lon2, z, d, a, f, kw)
    r = [plain(radians(v), scalar) for v in (lat, lon, az, lat2, lon2)]
    if rng.integers(2):
        s, u, v = ctx.do('inverse', fr.inverse, lat, lon, lat2, lon2, z, degrees=True, **kw)
        t, p, q = ctx.do('inverse', fr.inverse, r[0], r[1], r[3], r[4], z, **kw)
        ctx.close('inverse: distance', s, t, 1e-12 * a, info)
        # off the poles and away from antipodal points
        ok = (np.abs(np.sin(np.asarray(t) / (a - z))) > 1e-2) & (np.cos(r[0]) > 1e-3) & (np.cos(r[3]) > 1e-3) & (np.asarray(t) < 3.0 * (a - z))
        for g, w in ((u, p), (v, q)):
            ctx.close_ang('inverse: azimuths', np.where(ok, ref.ld(g) / D, 0), np.where(ok, w, 0), 1e-7, info)
    else:
        u = ctx.do('direct', fr.direct, lat, lon, az, d, z, degrees=True, **kw)
        v = ctx.do('direct', fr.direct, r[0], r[1], r[2], d, z, **kw)
        n, m = [ref.latlon2n(*(np.atleast_1d(w) for w in ll)) for ll in (
            (ref.ld(u[0]) / D, ref.ld(u[1]) / D), v[:2])]
        ctx.close('direct: position', n, m, 1e-10, info)
        ok = (np.cos(v[0]) > 1e-4) & (np.cos(r[0]) > 1e-4) & (np.abs(np.sin(r[2])) > 1e-3)
        ctx.close_ang('direct: azimuth', np.where(ok, ref.ld(u[2]) / D, 0), np.where(ok, v[2], 0), 1e-7, info)
        close = ctx.close if kw.get('long_unroll') else ctx.close_ang
        close('direct: longitude', np.where(ok, ref.ld(u[1]) / D, 0), np.where(ok, v[1], 0), 1e-7, info)


def attitudes(ctx, rng, idx):
    nv = ctx.nv
    fr, a, f, R, ax = frame(ctx, rng)
    n = np.ascontiguousarray(R.T @ gen.nvec(rng, 1))
    P = make_point(ctx, KINDS[rng.integers(3)], fr, n, np.zeros(1), R, a, f, scalar=True)
    one = [v[0] for v in (np.rad2deg(gen.angle(rng, 1)), np.rad2deg(gen.lat(rng, 1)), np.rad2deg(gen.angle(rng, 1)))]
    if rng.integers(2):
        one = [int(round(v)) for v in one]
    F = ctx.do('FrameB', nv.FrameB, P, *one, degrees=True)
    r = [float(radians(v)) for v in one]
    G = ctx.do('FrameB', nv.FrameB, P, *r)
    for got, want in zip((F.yaw, F.pitch, F.roll, G.yaw, G.pitch, G.roll), r + r):
        ctx.close('attitude in radians', got, want, 4 * EPS * (1e-300 + abs(want)), (one, r))
    ctx.close('attitude: R_EN', F.R_EN, G.R_EN, 64 * EPS, (one, n))
    # each switch converts all of yaw, pitch, roll
    for i, name in enumerate(('yaw', 'pitch', 'roll')):
        H = ctx.do('FrameB', nv.FrameB, P, degrees=True, **{name: one[i]})
        I = ctx.do('FrameB', nv.FrameB, P, **{name: r[i]})
        ctx.close('attitude: R_EN', H.R_EN, I.R_EN, 64 * EPS, (name, one, n))
    k = gen.ncols(rng)
    V = ctx.do('Pvector', F.Pvector, rng.normal(size=(3, k)) * a)
    for X in (V, ctx.do('to_ecef_vector', V.to_ecef_vector)):
        ctx.close('azimuth_deg', X.azimuth_deg, ref.ld(X.azimuth) * D, 4 * EPS * 180)
        ctx.close('elevation_deg', X.elevation_deg, ref.ld(X.elevation) * D, 4 * EPS * 90)


WORKLOADS = [('operations', operations, 3000, 60000), ('points', points, 1500, 30000),
             ('displacements', displacements, 3000, 60000), ('frame_methods', frame_methods, 2000, 40000),
             ('attitudes', attitudes, 600, 10000)]
REQUIRE = ['degrees: ' + o.name for o in OPS] + [
    'attribute in radians', 'attribute in degrees', 'depth is not an angle', 'displaced in degrees: position',
    'displaced in degrees: azimuth', 'displaced in degrees: unrolled longitude', 'azimuths in degrees',
    'inverse: distance', 'direct: longitude', 'attitude: R_EN', 'azimuth_deg', 'elevation_deg']
