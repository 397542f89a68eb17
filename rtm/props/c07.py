"""C07: great-circle, Euclidean and track distance"""
import numpy as np
import pyproj

from rtm import gen, ref
from rtm.props.c02 import depth
from rtm.props.common import EPS, KINDS, PI, frame, make_point

TECHNIQUE = ('extended-precision angle and chord oracle over separations from 1e-15 rad to antipodal; '
             'symmetry and identity monitors')
TRUSTS = ' and pyproj (PROJ geodesics)'


def radii(rng, k):
    """(argument list or None for the default, numeric radius)"""
    c = rng.integers(5)
    if c == 0:
        return None, np.full(k, 6371009.0)
    if c == 1:
        r = float(10 ** rng.uniform(-3, 9))
        return r, np.full(k, r)
    if c == 2:
        return 1, np.ones(k)
    r = 10 ** rng.uniform(-3, 9, k)
    return r, r


def functional(ctx, rng, idx):
    nv = ctx.nv
    k = gen.ncols(rng)
    a = gen.nvec(rng, k)
    b = gen.partner(rng, a)
    mode = rng.integers(4)
    if mode == 0 and k > 1:
        a = a[:, :1]
    elif mode == 1 and k > 1:
        b = b[:, :1]
    r, radius = radii(rng, k)
    for name, model in (('great_circle_distance', ref.angle), ('euclidean_distance', ref.chord)):
        fun = getattr(nv, name)
        if r is None:
            got = ctx.do(name, fun, a, b)
            rev = ctx.do(name, fun, b, a)
        elif rng.integers(2):
            got = ctx.do(name, fun, a, b, r)
            rev = ctx.do(name, fun, b, a, r)
        else:
            got = ctx.do(name, fun, a, b, radius=r)
            rev = ctx.do(name, fun, b, a, radius=r)
        want = np.broadcast_to(model(*np.broadcast_arrays(a, b)), (k,)) * ref.ld(radius)
        ctx.close(name, got, want, 8 * EPS * radius + 8 * EPS * want, (a, b, r))
        ctx.close(name + ' symmetric', rev, got, 8 * EPS * radius, (a, b, r))
        ctx.true(name + ' not negative', got >= 0, (a, b))
        same = np.broadcast_to((a == b).all(axis=0), (k,))
        ctx.true(name + ' zero for identical positions', np.abs(got[same]) <= 8 * EPS * radius[same])
    sep = ref.angle(*np.broadcast_arrays(a, b))
    for name, m in (('coincident', sep < 1e-12), ('below 1e-6', (sep >= 1e-12) & (sep < 1e-6)),
                    ('antipodal within 1e-6', sep > PI - 1e-6), ('exactly antipodal', (np.asarray(a) == -np.asarray(b)).all(axis=0))):
        ctx.tag(name, m.sum())


def tracks(ctx, rng, idx):
    nv = ctx.nv
    fr, a, f, R, ax = frame(ctx, rng)
    k = gen.ncols(rng)
    nA = gen.nvec(rng, k)
    nB = gen.partner(rng, nA)
    scalar = k == 1 and bool(rng.integers(2))
    zA, zB = depth(rng, nA, a, f, R), depth(rng, nB, a, f, R)
    kinds = [KINDS[i] for i in rng.integers(3, size=2)]
    A = make_point(ctx, kinds[0], fr, nA, zA, R, a, f, scalar)
    B = make_point(ctx, kinds[1], fr, nB, zB, R, a, f, scalar)
    path = ctx.do('GeoPath', nv.GeoPath, A, B)
    va, vb = ctx.do('to_nvector', A.to_nvector), ctx.do('to_nvector', B.to_nvector)
    na, nb = np.array(va.normal), np.array(vb.normal)
    za, zb = np.atleast_1d(va.z), np.atleast_1d(vb.z)
    mean_radius = (ref.norm(ref.n2p(na, za, a, f, R)) + ref.norm(ref.n2p(nb, zb, a, f, R))) / 2
    c = rng.integers(3)
    radius, kw = mean_radius, {}
    if c == 0:
        radius = float(10 ** rng.uniform(-3, 9))
        kw = dict(radius=radius)
    elif c == 1 and not scalar:
        radius = 10 ** rng.uniform(-3, 9, k)
        kw = dict(radius=radius)
    info = (na, nb, za, zb, a, f, ax, kw)
    for method, model in ((None, ref.angle), ('greatcircle', ref.angle), ('euclidean', ref.chord)):
        mk = dict(kw) if method is None else dict(kw, method=method)
        got = ctx.do('track_distance', path.track_distance, **mk)
        want = model(na, nb) * radius
        ctx.eq('track scalar', np.ndim(got) == 0, scalar or (c == 0 and k == 1), (k, kw))
        ctx.close('track {}'.format(method or 'default'), np.atleast_1d(got), want,
                  64 * EPS * (radius + (0 if kw else a + np.abs(za) + np.abs(zb))), info)
    ctx.tag('radius ' + ('given' if kw else 'default'))
    ctx.tag('kinds ' + '-'.join(kinds))


def ellipsoidal_track(ctx, rng, idx):
    """method ellipsoid/exact: the geodesic on the ellipsoid reduced by the mean depth"""
    nv = ctx.nv
    fr, a, f, R, ax = frame(ctx, rng)
    k = min(gen.ncols(rng), 5)
    nA = gen.nvec(rng, k)
    nB = gen.partner(rng, nA)
    scalar = k == 1 and bool(rng.integers(2))
    zA, zB = gen.depth(rng, k, a, deep=False), gen.depth(rng, k, a, deep=False)
    A = make_point(ctx, 'geo', fr, nA, zA, R, a, f, scalar)
    B = make_point(ctx, 'geo', fr, nB, zB, R, a, f, scalar)
    path = ctx.do('GeoPath', nv.GeoPath, A, B)
    method = ('ellipsoid', 'ellipsoidal', 'exact')[rng.integers(3)]
    kw = {} if rng.integers(2) else dict(radius=float(10 ** rng.uniform(0, 7)))
    got = ctx.do('track_distance', path.track_distance, method=method, **kw)
    ctx.eq('ellipsoidal scalar', np.ndim(got) == 0, scalar)
    got = np.atleast_1d(got)
    for i in range(k):
        ai = a - (zA[i] + zB[i]) / 2
        geod = pyproj.Geod(a=ai, f=f)
        lat = np.rad2deg(np.atleast_1d(A.latitude)[i]), np.rad2deg(np.atleast_1d(B.latitude)[i])
        lon = np.rad2deg(np.atleast_1d(A.longitude)[i]), np.rad2deg(np.atleast_1d(B.longitude)[i])
        _az, _baz, s = geod.inv(lon[0], lat[0], lon[1], lat[1])
        ctx.close('ellipsoidal track', got[i], s, 2e-14 * ai, (lat, lon, ai, f))


WORKLOADS = [('functional', functional, 8000, 300000), ('tracks', tracks, 3000, 80000),
             ('ellipsoidal_track', ellipsoidal_track, 800, 20000)]
REQUIRE = ['great_circle_distance', 'euclidean_distance', 'great_circle_distance symmetric',
           'euclidean_distance symmetric', 'track default', 'track greatcircle', 'track euclidean', 'ellipsoidal track']
