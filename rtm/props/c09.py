"""C09: great-circle displacement, distance and azimuths between points"""
import numpy as np

from rtm import gen, ref
from rtm.props.c02 import depth
from rtm.props.c04 import positions
from rtm.props.c08 import north_east
from rtm.props.common import EPS, KINDS, PI, frame, make_point

TECHNIQUE = 'extended-precision model of the displacement and of both azimuths over hostile points and distances'


def azimuth_of(n, p, q, R):
    """azimuth and horizontal length of the vector from p to q in the local frame at n"""
    north, east, pole = north_east(n, R)
    d = q - p
    x, y = ref.dot(d, north), ref.dot(d, east)
    return np.arctan2(y, x), np.hypot(x, y)


def displace(ctx, rng, idx):
    nv = ctx.nv
    fr, a, f, R, ax = frame(ctx, rng)
    k = gen.ncols(rng)
    n = positions(rng, k, R)
    z = depth(rng, n, a, f, R)
    scalar = k == 1 and bool(rng.integers(2))
    A = make_point(ctx, 'geo', fr, n, z, R, a, f, scalar)
    na = ref.latlon2n(np.atleast_1d(A.latitude), np.atleast_1d(A.longitude), R)
    pA = ref.n2p(na, z, a, f, R)
    radius = ref.norm(pA)
    ang = gen._pick(rng, k, [lambda m: rng.uniform(0, PI, m), lambda m: 10 ** rng.uniform(-9, 0, m),
                             lambda m: -rng.uniform(0, PI, m), lambda m: rng.uniform(-9, 9, m),
                             lambda m: rng.uniform(0, 0.2, m), np.zeros])
    dist = (ang * radius).astype(float)
    az = gen.angle(rng, k, 'many')
    degrees = bool(rng.integers(2))
    az_arg = np.rad2deg(az) if degrees else az
    az = ref.ld(az_arg) * (ref.PI / 180 if degrees else 1)
    da, aa = dist, az_arg
    mode = rng.integers(4)
    if scalar or mode == 0:
        da, aa = float(dist[0]), float(az_arg[0])
        dist, az = np.full(k, da), np.full(k, az[0])
    elif mode == 1:
        aa = float(az_arg[0])
        az = np.full(k, az[0])
    kw = dict(method='greatcircle')
    if degrees:
        kw['degrees'] = True
    B, az_b = ctx.do('displace', A.displace, da, aa, **kw)
    ang = ref.ld(dist) / radius
    north, east, pole = north_east(na, R)
    nb = na * np.cos(ang) + (north * np.cos(az) + east * np.sin(az)) * np.sin(ang)
    # a GeoPoint exactly at a pole keeps its longitude, which the n-vector does not resolve: the
    # azimuth there is only defined up to that rounding
    at_pole = ref.cos_lat(na, R) < 1e-14
    size = 1 + np.abs(ang) + np.abs(az)
    # deep points: the radius is a difference of large numbers
    size = size * (1 + (a + np.abs(z)) / radius)
    tol = 64 * EPS * size
    got = ref.latlon2n(np.atleast_1d(B.latitude), np.atleast_1d(B.longitude), R)
    info = (A, da, aa, kw, ax, a, f)
    ctx.close('displaced position', np.where(at_pole, 0, got), np.where(at_pole, 0, nb), tol, info)
    folded = np.abs(ref.wrap(ang))
    ctx.close('displacement distance', ref.angle(na, got), folded, tol, info)
    ctx.true('depth kept', np.broadcast_to(B.z, (k,)) == z, info)
    ctx.true('is a GeoPoint of the frame', isinstance(B, nv.GeoPoint) and B.frame == fr)
    ctx.eq('scalar', (np.ndim(B.latitude) == 0, np.ndim(B.longitude) == 0, np.ndim(az_b) == 0), (scalar,) * 3,
           info)
    got_az = np.atleast_1d(az_b)
    limit = 180 if degrees else PI
    ctx.true('arrival azimuth range', (got_az >= -limit * (1 + 4 * EPS)) & (got_az <= limit * (1 + 4 * EPS)), got_az)
    pB = ref.n2p(nb, z, a, f, R)
    back, hor = azimuth_of(nb, pB, pA, R)
    want = back + np.where(np.sin(ang) < 0, 0, ref.PI)
    cl = np.maximum(ref.cos_lat(nb, R), 1e-30)
    scale = a + np.abs(z)
    tol_az = (tol * scale * 2 + 64 * EPS * scale) / np.maximum(hor, 1e-300) + 2 * tol / cl
    ok = (tol_az < 1e-3) & ~at_pole & (np.abs(np.sin(ang)) > 1e-9)
    unit = 180 / ref.PI if degrees else 1
    ctx.close_ang('arrival azimuth', np.where(ok, got_az / unit, 0), np.where(ok, want, 0), tol_az, info)
    ctx.tag('arrival azimuth judged', ok.sum())
    ctx.tag('degrees' if degrees else 'radians')
    ctx.tag('backwards', (ang < 0).sum())
    ctx.tag('more than half a turn', (np.abs(ang) > PI).sum())
    ctx.tag('axes ' + ax)


def between(ctx, rng, idx):
    nv = ctx.nv
    fr, a, f, R, ax = frame(ctx, rng)
    k = gen.ncols(rng)
    nA = positions(rng, k, R)
    nB = gen.partner(rng, nA)
    zA, zB = depth(rng, nA, a, f, R), depth(rng, nB, a, f, R)
    scalar = k == 1 and bool(rng.integers(2))
    kb = KINDS[rng.integers(3)]
    A = make_point(ctx, 'geo', fr, nA, zA, R, a, f, scalar)
    B = make_point(ctx, kb, fr, nB, zB, R, a, f, scalar)
    vA, vB = ctx.do('to_nvector', A.to_nvector), ctx.do('to_nvector', B.to_nvector)
    na, nb = np.array(vA.normal), np.array(vB.normal)
    za, zb = np.atleast_1d(vA.z), np.atleast_1d(vB.z)
    pA, pB = ref.n2p(na, za, a, f, R), ref.n2p(nb, zb, a, f, R)
    degrees = bool(rng.integers(2))
    kw = dict(method='greatcircle')
    if degrees:
        kw['degrees'] = True
    s, aza, azb = ctx.do('distance_and_azimuth', A.distance_and_azimuth, B, **kw)
    radius = (ref.norm(pA) + ref.norm(pB)) / 2
    scale = a + np.abs(zA) + np.abs(zB)
    info = (na, nb, za, zb, a, f, ax, kb)
    ctx.eq('scalar results', tuple(np.ndim(x) == 0 for x in (s, aza, azb)), (scalar,) * 3, info)
    s, aza, azb = [np.atleast_1d(x) for x in (s, aza, azb)]
    ctx.close('distance', s, ref.angle(na, nb) * radius, 64 * EPS * scale, info)
    unit = 180 / ref.PI if degrees else 1
    limit = 180 if degrees else PI
    for name, az, n1, p1, p2, turn in (('azimuth at A', aza, na, pA, pB, 0), ('azimuth at B', azb, nb, pB, pA, ref.PI)):
        ctx.true('azimuth range', np.abs(az) <= limit * (1 + 4 * EPS), az)
        want, hor = azimuth_of(n1, p1, p2, R)
        tol = 32 * EPS + 96 * EPS * scale / np.maximum(hor, 1e-300)
        ok = (tol < 1e-3) & (ref.cos_lat(n1, R) > 1e-150)
        ctx.close_ang(name, np.where(ok, az / unit, 0), np.where(ok, want - turn, 0), tol, info)
        ctx.tag(name + ' judged', ok.sum())
    ctx.tag('B is ' + kb)
    ctx.tag('degrees' if degrees else 'radians')


def there_and_again(ctx, rng, idx):
    """distance/azimuth and displacement are inverse on a sphere at the surface"""
    nv = ctx.nv
    a = float(10 ** rng.uniform(0, 8))
    ax = ('e', 'E')[rng.integers(2)]
    fr = ctx.do('FrameE', nv.FrameE, a=a, f=0, axes=ax)
    R = ref.R_AXES[ax]
    k = gen.ncols(rng)
    nA, nB = gen.generic_pair(rng, k, 1e-4, PI - 1e-3)
    z = np.zeros(k)
    A = make_point(ctx, 'geo', fr, nA, z, R, a, 0)
    B = make_point(ctx, 'geo', fr, nB, z, R, a, 0)
    s, aza, azb = ctx.do('distance_and_azimuth', A.distance_and_azimuth, B, method='greatcircle')
    C, azc = ctx.do('displace', A.displace, s, aza, method='greatcircle')
    got = ref.latlon2n(C.latitude, C.longitude, R)
    na = ref.latlon2n(A.latitude, A.longitude, R)
    nb = ref.latlon2n(B.latitude, B.longitude, R)
    ok = (ref.cos_lat(na, R) > 1e-6) & (ref.cos_lat(nb, R) > 1e-6)
    sn = np.sin(ref.angle(na, nb))
    tol = 256 * EPS * (1 + 1 / sn + 1 / np.maximum(ref.cos_lat(na, R), 1e-6))
    ctx.close('displacement arrives at B', np.where(ok, got, 0), np.where(ok, nb, 0), tol, (nA, nB, a, ax))
    tolb = tol * 4 * (1 / sn + 1 / np.maximum(ref.cos_lat(nb, R), 1e-6))
    ctx.close_ang('same arrival azimuth', np.where(ok, azc, 0), np.where(ok, azb, 0), tolb, (nA, nB, a, ax))


WORKLOADS = [('displace', displace, 4000, 120000), ('between', between, 4000, 120000),
             ('there_and_again', there_and_again, 1500, 40000)]
REQUIRE = ['displaced position', 'displacement distance', 'depth kept', 'arrival azimuth', 'distance',
           'azimuth at A', 'azimuth at B', 'displacement arrives at B', 'same arrival azimuth', 'scalar', 'scalar results']
