"""C10: geodesics on the ellipsoid"""
import numpy as np
import pyproj

from rtm import gen, ref
from rtm.props.common import EPS, PI, frame

TECHNIQUE = ('residual oracle: every reported geodesic is followed by an independent implementation (PROJ) on '
             'the reduced ellipsoid; unrolled longitudes are compared with a step-by-step walk')
TRUSTS = ' and pyproj (PROJ geodesics)'
TOL = 1e-13


def lat_lon(rng, k):
    return gen.lat(rng, k), gen.lon(rng, k, turns=bool(rng.integers(2)))


def partner(rng, lat, lon):
    k = lat.size
    la, lo = gen.lat(rng, k), gen.lon(rng, k)
    m = rng.integers(9, size=k)
    eps = gen.sign(rng, k) * gen.tiny(rng, k, 0, 12)
    eps2 = gen.sign(rng, k) * gen.tiny(rng, k, 0, 12)
    la = np.where(m == 0, np.clip(-lat + eps, -PI / 2, PI / 2), la)       # near antipodal
    lo = np.where(m == 0, lon + PI + eps2, lo)
    la = np.where(m == 1, np.clip(lat + eps, -PI / 2, PI / 2), la)        # near
    lo = np.where(m == 1, lon + eps2, lo)
    lo = np.where(m == 2, lon, lo)                                        # meridian
    lo = np.where(m == 3, lon + PI, lo)
    la = np.where(m == 4, lat, la)                                        # same parallel
    la, lo = np.where(m == 5, lat, la), np.where(m == 5, lon, lo)         # coincident
    la, lo = np.where(m == 6, -lat, la), np.where(m == 6, lon + PI, lo)   # antipodal
    return la, lo


def follow(a, f, lat, lon, az, s):
    """PROJ direct problem, in degrees; one ellipsoid per element"""
    out = np.empty((3, lat.size))
    for i in range(lat.size):
        lo, la, azb = pyproj.Geod(a=float(a[i]), f=float(f)).fwd(
            float(lon[i]), float(lat[i]), float(az[i]), float(s[i]), return_back_azimuth=False)
        out[:, i] = la, lo, azb
    return out


def normal(lat_deg, lon_deg):
    d = ref.PI / 180
    return ref.latlon2n(ref.ld(lat_deg) * d, ref.ld(lon_deg) * d)


def lost_azimuth(s, lat, lat2):
    """geographiclib itself loses the azimuth of very short lines next to a pole"""
    near_pole = (np.cos(lat) < 1e-8) & (np.cos(lat2) < 1e-8)
    return np.where((s < 2e-12) | (near_pole & (s < 1e-8)), 4 * s, 0)


def judge_geodesic(ctx, name, a, f, A, B, s, aza, azb, info):
    """everything in degrees; A, B = (lat, lon): from A along aza for s one gets to B with azb"""
    lat, lon, az = follow(a, f, A[0], A[1], aza, s)
    size = 1 + np.abs(s) / a
    short = lost_azimuth(np.abs(s) / a, A[0] * PI / 180, B[0] * PI / 180)
    ctx.close(name + ' arrives', normal(lat, lon), normal(*B), TOL * size + short, info)
    cb = np.maximum(np.cos(np.deg2rad(lat)), 1e-30)
    tol = 4 * TOL * size / cb
    ok = (tol < 1e-6) & (short == 0)
    ctx.close_ang(name + ' arrival azimuth', np.where(ok, np.deg2rad(azb), 0), np.where(ok, np.deg2rad(az), 0),
                  tol, info)


def reduce_depths(rng, k, a):
    z = gen.depth(rng, k, a)
    return np.minimum(z, 0.9 * a)


def arguments(rng, k, arrays):
    """arrays or scalars (equal along columns)"""
    args, full = [], []
    for x in arrays:
        if k == 1 or rng.integers(5) == 0:
            args.append(float(x[0]))
            full.append(np.full(k, x[0]))
        else:
            args.append(x)
            full.append(x)
    if all(np.ndim(x) == 0 for x in args):
        return args, [x[:1] for x in full], 1
    return args, full, k


def inverse(ctx, rng, idx):
    nv = ctx.nv
    fr, a, f, R, ax = frame(ctx, rng)
    k = min(gen.ncols(rng), 5)
    lat, lon = lat_lon(rng, k)
    lat2, lon2 = partner(rng, lat, lon)
    degrees = bool(rng.integers(2))
    zA, zB = reduce_depths(rng, k, a), reduce_depths(rng, k, a)
    if rng.integers(2):
        angles = [np.rad2deg(x) for x in (lat, lon, lat2, lon2)] if degrees else [lat, lon, lat2, lon2]
        args, full, k = arguments(rng, k, angles + [zA])
        scalar = all(np.ndim(x) == 0 for x in args)
        kw = dict(degrees=True) if degrees else {}
        if rng.integers(3) == 0:
            kw['long_unroll'] = bool(rng.integers(2))
        if rng.integers(4) == 0:
            s, aza, azb = ctx.do('FrameE.inverse', fr.inverse, *args[:4], **kw)
            full[4] = np.zeros(1)
            scalar = all(np.ndim(x) == 0 for x in args[:4])
            if scalar:
                full = [x[:1] for x in full]
        else:
            s, aza, azb = ctx.do('FrameE.inverse', fr.inverse, *args[:4], z=args[4], **kw)
        ctx.tag('FrameE.inverse')
    else:
        scalar = k == 1 and bool(rng.integers(2))
        angles = [np.rad2deg(x) for x in (lat, lon, lat2, lon2)] if degrees else [lat, lon, lat2, lon2]
        full = angles + [(zA + zB) / 2]
        pick = (lambda x: float(x[0])) if scalar else (lambda x: x)
        A = ctx.do('GeoPoint', nv.GeoPoint, pick(angles[0]), pick(angles[1]), pick(zA), frame=fr, degrees=degrees)
        B = ctx.do('GeoPoint', nv.GeoPoint, pick(angles[2]), pick(angles[3]), pick(zB), frame=fr, degrees=degrees)
        out_deg = bool(rng.integers(2))
        kw = dict(degrees=True) if out_deg else {}
        if rng.integers(2):
            kw['method'] = 'ellipsoid'
        if rng.integers(3) == 0:
            kw['long_unroll'] = bool(rng.integers(2))
        s, aza, azb = ctx.do('distance_and_azimuth', A.distance_and_azimuth, B, **kw)
        if degrees and not out_deg:
            aza, azb = np.rad2deg(aza), np.rad2deg(azb)
        elif out_deg and not degrees:
            aza, azb = np.deg2rad(aza), np.deg2rad(azb)
        ctx.tag('GeoPoint.distance_and_azimuth')
    n = full[0].size
    info = (full, a, f, ax, degrees)
    ctx.eq('scalar results', tuple(np.ndim(x) == 0 for x in (s, aza, azb)), (scalar,) * 3, info)
    s, aza, azb = [np.atleast_1d(x) for x in (s, aza, azb)]
    if not degrees:
        full = [np.rad2deg(x) for x in full[:4]] + full[4:]
        aza, azb = np.rad2deg(aza), np.rad2deg(azb)
    n = max(x.size for x in full)
    full = [np.broadcast_to(x, (n,)) for x in full]
    ctx.shape('distance shape', s, (n,))
    ai = a - full[4]
    best = np.array([pyproj.Geod(a=float(ai[i]), f=float(f)).inv(
        float(full[1][i]), float(full[0][i]), float(full[3][i]), float(full[2][i]))[2] for i in range(n)])
    ctx.close('geodesic distance', s, best, 4e-14 * ai, info)
    ctx.true('azimuth range', (np.abs(aza) <= 180 * (1 + 4 * EPS)) & (np.abs(azb) <= 180 * (1 + 4 * EPS)))
    judge_geodesic(ctx, 'inverse', ai, f, full[:2], full[2:4], s, aza, azb, info)
    ctx.tag('more than 179 degrees apart', (best > 3.124 * ai).sum())


def direct(ctx, rng, idx):
    nv = ctx.nv
    fr, a, f, R, ax = frame(ctx, rng)
    k = min(gen.ncols(rng), 5)
    lat, lon = lat_lon(rng, k)
    az = gen.angle(rng, k)
    z = reduce_depths(rng, k, a)
    s = a * gen._pick(rng, k, [lambda m: rng.uniform(0, 3, m), lambda m: 10 ** rng.uniform(-12, 0, m), np.zeros,
                               lambda m: rng.uniform(-3, 0, m), lambda m: rng.uniform(0, 40, m)])
    degrees = bool(rng.integers(2))
    unroll = bool(rng.integers(2))
    ang = [np.rad2deg(x) for x in (lat, lon, az)] if degrees else [lat, lon, az]
    kw = dict(long_unroll=unroll) if unroll or rng.integers(2) else {}
    if degrees:
        kw['degrees'] = True
    if rng.integers(2):
        args, full, k = arguments(rng, k, ang + [s, z])
        if rng.integers(4) == 0:
            lat_b, lon_b, az_b = ctx.do('FrameE.direct', fr.direct, *args[:4], **kw)
            full[4] = np.zeros(1)
            scalar = all(np.ndim(x) == 0 for x in args[:4])
            if scalar:
                full = [x[:1] for x in full]
        else:
            lat_b, lon_b, az_b = ctx.do('FrameE.direct', fr.direct, *args[:4], z=args[4], **kw)
            scalar = all(np.ndim(x) == 0 for x in args)
        if not degrees:
            full = [np.rad2deg(x) for x in full[:3]] + full[3:]
            lat_b, lon_b, az_b = [np.rad2deg(x) for x in (lat_b, lon_b, az_b)]
        ctx.tag('FrameE.direct')
    else:
        scalar = k == 1 and bool(rng.integers(2))
        pick = (lambda x: float(x[0])) if scalar else (lambda x: x)
        A = ctx.do('GeoPoint', nv.GeoPoint, pick(ang[0]), pick(ang[1]), pick(z), frame=fr, degrees=degrees)
        if rng.integers(2):
            kw['method'] = 'ellipsoid'
        B, az_b = ctx.do('displace', A.displace, pick(s), pick(ang[2]), **kw)
        ctx.true('depth kept', np.broadcast_to(B.z, (k,)) == z)
        ctx.true('is a GeoPoint of the frame', isinstance(B, nv.GeoPoint) and B.frame == fr)
        lat_b, lon_b = np.rad2deg(B.latitude), np.rad2deg(B.longitude)
        full = [np.rad2deg(x) if not degrees else x for x in ang] + [s, z]
        if not degrees:
            az_b = np.rad2deg(az_b)
        ctx.tag('GeoPoint.displace')
    info = (full, a, f, ax, degrees, kw)
    ctx.eq('scalar results', tuple(np.ndim(x) == 0 for x in (lat_b, lon_b, az_b)), (scalar,) * 3, info)
    lat_b, lon_b, az_b = [np.atleast_1d(x) for x in (lat_b, lon_b, az_b)]
    n = max(x.size for x in full)
    full = [np.broadcast_to(x, (n,)) for x in full]
    ctx.shape('direct shape', lat_b, (n,))
    ai = a - full[4]
    ctx.true('direct latitude range', np.abs(lat_b) <= 90)
    ctx.true('direct azimuth range', np.abs(az_b) <= 180 * (1 + 4 * EPS))
    if not unroll:
        ctx.true('direct longitude range', np.abs(lon_b) <= 180 * (1 + 4 * EPS), lon_b)
    judge_geodesic(ctx, 'direct', ai, f, full[:2], (lat_b, lon_b), full[3], full[2], az_b, info)
    if unroll:
        ctx.tag('unrolled', n)
        walk(ctx, ai, f, full, lon_b, info)


def walk(ctx, ai, f, full, lon_b, info):
    lat, lon, az, s, _z = full
    for i in range(lat.size):
        steep = abs(np.sin(np.deg2rad(az[i])) * np.cos(np.deg2rad(lat[i])))
        if steep < 0.15 or abs(s[i]) > 60 * ai[i]:
            continue
        geod = pyproj.Geod(a=float(ai[i]), f=float(f))
        m = int(abs(s[i]) / ai[i] / 0.1) + 2
        d = np.linspace(0, s[i], m)
        one = np.ones(m)
        lo, la, _az = geod.fwd(lon[i] * one, lat[i] * one, az[i] * one, d, return_back_azimuth=False)
        steps = np.diff(np.concatenate(([lon[i]], lo)))
        total = lon[i] + (steps - 360 * np.round(steps / 360)).sum()
        ctx.close('unrolled longitude', lon_b[i], total, 1e-9, info)
        ctx.tag('unrolled more than half a turn', abs(total - lon[i]) > 180)


def round_trip(ctx, rng, idx):
    """displacing A by the distance and azimuth reported to B arrives at B"""
    nv = ctx.nv
    fr, a, f, R, ax = frame(ctx, rng)
    k = min(gen.ncols(rng), 5)
    lat, lon = lat_lon(rng, k)
    lat2, lon2 = partner(rng, lat, lon)
    z = reduce_depths(rng, k, a)
    scalar = k == 1 and bool(rng.integers(2))
    pick = (lambda x: float(x[0])) if scalar else (lambda x: x)
    A = ctx.do('GeoPoint', fr.GeoPoint, pick(lat), pick(lon), pick(z))
    B = ctx.do('GeoPoint', fr.GeoPoint, pick(lat2), pick(lon2), pick(z))
    degrees = bool(rng.integers(2))
    s, aza, azb = ctx.do('distance_and_azimuth', A.distance_and_azimuth, B, degrees=degrees)
    C, azc = ctx.do('displace', A.displace, s, aza, degrees=degrees)
    info = (lat, lon, lat2, lon2, z, a, f)
    got = ref.latlon2n(np.atleast_1d(C.latitude), np.atleast_1d(C.longitude))
    short = lost_azimuth(np.atleast_1d(s) / (a - z), lat, lat2)
    ctx.close('displacement arrives at B', got, ref.latlon2n(lat2, lon2), 8 * TOL + short, info)
    unit = PI / 180 if degrees else 1
    tol = 32 * TOL / np.maximum(np.cos(lat2), 1e-30)
    ok = (tol < 1e-6) & (short == 0)
    ctx.close_ang('same arrival azimuth', np.where(ok, np.atleast_1d(azc) * unit, 0),
                  np.where(ok, np.atleast_1d(azb) * unit, 0), tol, info)
    ctx.true('depth kept', np.broadcast_to(C.z, (k,)) == z)
    p = ctx.do('GeoPath', nv.GeoPath, A, B)
    t = ctx.do('track_distance', p.track_distance, method='ellipsoid')
    ctx.close('track distance', t, np.asarray(s), 4e-14 * a, info)


WORKLOADS = [('inverse', inverse, 2500, 60000), ('direct', direct, 2500, 60000), ('round_trip', round_trip, 1500, 30000)]
REQUIRE = ['geodesic distance', 'inverse arrives', 'inverse arrival azimuth', 'direct arrives',
           'direct arrival azimuth', 'unrolled longitude', 'displacement arrives at B', 'same arrival azimuth',
           'depth kept', 'direct longitude range']
