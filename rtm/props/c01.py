"""C01: latitude/longitude <-> n-vector"""
import numpy as np

from rtm import gen, ref
from rtm.props.common import (EPS, PI, R_of, axes_class, frame, kw_R, scalar_or_vector)

HALF_PI = float(np.float64(PI / 2))


def lon_tol(n, R, k=16):
    """rounding of R times n is amplified by 1/cos(latitude) unless R only permutes"""
    exact = axes_class(R)
    return k * EPS * (1 if exact else 1 + 1 / np.maximum(ref.cos_lat(n, R), 1e-30))


def forward(ctx, rng, idx):
    R, kind = gen.R_Ee(rng)
    n = gen.ncols(rng)
    lat, lon = gen.lat(rng, n), gen.lon(rng, n, turns='many')
    if rng.random() < 0.15:
        lat = lat + rng.choice([-2 * PI, 2 * PI, PI], n)
    la, lo = scalar_or_vector(rng, lat, lon)
    got = ctx.do('lat_lon2n_E', ctx.nv.lat_lon2n_E, la, lo, **kw_R(R))
    want = ref.latlon2n(lat, lon, R_of(R))
    ctx.close('n-vector', got, want, 8 * EPS, (lat, lon))
    ctx.close('unit length', ref.norm(got), np.ones(n), 32 * EPS)
    ctx.tag('axes ' + kind)
    ctx.tag('within 1e-6 rad of a pole', (np.cos(lat) < 1e-6).sum())
    ctx.tag('beyond half a turn', (np.abs(lon) > PI).sum())
    back = ctx.do('n_E2lat_lon', ctx.nv.n_E2lat_lon, got, **kw_R(R))
    check_back(ctx, got, back, R_of(R))
    wlat, wlon = ref.n2latlon(want, R_of(R))
    ctx.close('latitude round trip', back[0], wlat, 16 * EPS, (lat, lon))
    ctx.close_ang('longitude round trip', back[1], wlon, lon_tol(want, R_of(R), 32), (lat, lon))


def check_back(ctx, n, back, R):
    lat, lon = back
    wlat, wlon = ref.n2latlon(n, R)
    ctx.close('latitude', lat, wlat, 8 * EPS, n)
    ctx.close_ang('longitude', lon, wlon, lon_tol(n, R), n)
    ctx.true('latitude range', np.abs(lat) <= HALF_PI, lat)
    ctx.true('longitude range', np.abs(lon) <= PI, lon)


def backward(ctx, rng, idx):
    R, kind = gen.R_Ee(rng)
    n = gen.ncols(rng)
    v = gen.layout(rng, gen.nvec(rng, n))
    if kind == 'default' and rng.random() < 0.3:
        # floating point neighbours of the poles, antimeridian and equator
        v = np.array(v)
        v[1:] *= gen.tiny(rng, n, 0, 200)
        v = gen.normalize(v)
        ctx.tag('neighbour of pole', n)
    back = ctx.do('n_E2lat_lon', ctx.nv.n_E2lat_lon, v, **kw_R(R))
    check_back(ctx, v, back, R_of(R))
    again = ctx.do('lat_lon2n_E', ctx.nv.lat_lon2n_E, *back, **kw_R(R))
    ctx.close('n-vector round trip', again, v, 16 * EPS, v)


def objects(ctx, rng, idx):
    nv = ctx.nv
    fr, a, f, R, ax = frame(ctx, rng)
    n = gen.ncols(rng)
    lat, lon, z = gen.lat(rng, n), gen.lon(rng, n, turns='many'), gen.depth(rng, n)
    degrees = bool(rng.integers(2))
    if degrees:
        lat, lon = np.rad2deg(lat), np.rad2deg(lon)
        if rng.random() < 0.5:
            lat, lon = np.round(lat), np.round(lon)
    la, lo, zz = scalar_or_vector(rng, lat, lon, z)
    mode = rng.integers(4)
    if mode == 0 and n > 1:
        zz, z = float(z[0]), np.full(n, z[0])
        ctx.tag('scalar depth broadcast')
    elif mode == 1 and n > 1:
        la, lat = float(lat[0]), np.full(n, lat[0])
        ctx.tag('scalar latitude broadcast')
    default = rng.random() < 0.2
    opts = dict(degrees=True) if degrees else ({} if rng.integers(2) else dict(degrees=False))
    if default:
        R, ax = ref.R_DEFAULT, 'e'
        p = ctx.do('GeoPoint', nv.GeoPoint, la, lo, zz, **opts)
    elif rng.integers(2):
        p = ctx.do('GeoPoint', nv.GeoPoint, la, lo, zz, frame=fr, **opts)
    else:
        p = ctx.do('FrameE.GeoPoint', fr.GeoPoint, la, lo, zz, **opts)
    rlat, rlon = (np.deg2rad(lat), np.deg2rad(lon)) if degrees else (lat, lon)
    if degrees:
        exact_lat, exact_lon = ref.ld(lat) * ref.PI / 180, ref.ld(lon) * ref.PI / 180
    else:
        exact_lat, exact_lon = ref.ld(lat), ref.ld(lon)
    shape = (n,) if np.ndim(la) or np.ndim(lo) or np.ndim(zz) else ()
    for name, got, want in zip(('latitude', 'longitude', 'z'), ctx.do('latlon', lambda: p.latlon),
                               (rlat, rlon, z)):
        ctx.close('attribute ' + name, got, want.reshape(shape), 4 * EPS * np.abs(want.reshape(shape)))
    for name, got, want in zip(('latitude', 'longitude', 'z'), ctx.do('latlon_deg', lambda: p.latlon_deg),
                               (np.rad2deg(rlat), np.rad2deg(rlon), z)):
        ctx.close('attribute in degrees ' + name, got, want.reshape(shape),
                  8 * EPS * np.abs(want.reshape(shape)))
    v = ctx.do('GeoPoint.to_nvector', p.to_nvector)
    turns = 1 + np.abs(np.float64(exact_lon)) + np.abs(np.float64(exact_lat))
    want = ref.latlon2n(exact_lat, exact_lon, R)
    ctx.close('GeoPoint n-vector', v.normal, want, 8 * EPS * turns, (lat, lon, ax))
    ctx.true('depth unchanged', np.broadcast_to(v.z, (n,)) == z, (v.z, z))
    ctx.true('frame kept', v.frame is p.frame or v.frame == p.frame)
    q = ctx.do('Nvector.to_geo_point', v.to_geo_point)
    ctx.true('depth unchanged', np.broadcast_to(q.z, (n,)) == z, (q.z, z))
    ctx.true('frame kept', q.frame is p.frame or q.frame == p.frame)
    wlat, wlon = ref.n2latlon(want, R)
    ctx.close('GeoPoint latitude round trip', np.ravel(q.latitude), wlat, 16 * EPS * turns, (lat, lon))
    cl = np.maximum(ref.cos_lat(want, R), 1e-300)
    # outside [-90, 90] the longitude jumps where cos(latitude) vanishes
    over = np.abs(exact_lat) > PI / 2 * (1 - 1e-12)
    ctx.close_ang('GeoPoint longitude round trip', np.ravel(q.longitude), wlon,
                  16 * EPS * turns * np.where(over, 1 + 1 / cl, 1), (lat, lon))
    lat_d, lon_d, _z = ctx.do('latlon_deg', lambda: q.latlon_deg)
    ctx.true('degrees range', (np.abs(lat_d) <= 90) & (np.abs(lon_d) <= 180), (lat_d, lon_d))
    ctx.tag('scalar' if shape == () else 'vector')
    ctx.tag('axes ' + ax)


def nvector_objects(ctx, rng, idx):
    nv = ctx.nv
    fr, a, f, R, ax = frame(ctx, rng)
    n = gen.ncols(rng)
    v, z = gen.nvec(rng, n), gen.depth(rng, n)
    zz = float(z[0]) if n == 1 and rng.integers(2) else z
    p = ctx.do('Nvector', nv.Nvector, v, zz, frame=fr)
    q = ctx.do('Nvector.to_geo_point', p.to_geo_point)
    check_back(ctx, v, (np.ravel(q.latitude), np.ravel(q.longitude)), R)
    ctx.true('depth unchanged', np.broadcast_to(q.z, (n,)) == z, (q.z, z))
    w = ctx.do('GeoPoint.to_nvector', q.to_nvector)
    ctx.close('Nvector round trip', w.normal, v, 16 * EPS, v)
    ctx.true('depth unchanged', np.broadcast_to(w.z, (n,)) == z, (w.z, z))
    ctx.true('frame kept', w.frame is fr or w.frame == fr)


TECHNIQUE = 'extended-precision reference model checked online over hostile conversion histories'
WORKLOADS = [('forward', forward, 6000, 300000), ('backward', backward, 6000, 300000),
             ('objects', objects, 4000, 150000), ('nvector_objects', nvector_objects, 3000, 100000)]
REQUIRE = ['n-vector', 'latitude', 'longitude', 'latitude round trip', 'longitude round trip',
           'latitude range', 'longitude range', 'n-vector round trip', 'depth unchanged', 'frame kept',
           'GeoPoint n-vector', 'GeoPoint longitude round trip', 'degrees range']
