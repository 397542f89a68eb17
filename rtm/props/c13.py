"""C13: on_path is true exactly between the end points, on the circle or geodesic, at the mean depth"""
import numpy as np
import pyproj

from rtm import gen, ref
from rtm.props.c02 import depth
from rtm.props.common import EPS, KINDS, PI, frame, make_point

TECHNIQUE = ('construction oracle: positions with hidden along-track and cross-track coordinates, judged in '
             'extended precision (great circle) or with PROJ (ellipsoid)')
TRUSTS = ' and pyproj (PROJ geodesics)'


def length(rng, k, lo, hi):
    m = rng.integers(3, size=k)
    ang = rng.uniform(0.01, hi, k)
    ang = np.where(m == 0, lo * (1 / lo) ** rng.uniform(0, 1, k), ang)
    return np.where(m == 1, rng.choice([0.1, PI / 2, 2.5, 3.0], k), ang)


def fraction(rng, k):
    return gen._pick(rng, k, [lambda m: rng.uniform(0, 1, m), lambda m: rng.uniform(0, 1, m),
                              lambda m: gen.sign(rng, m) * gen.tiny(rng, m, 0, 9),
                              lambda m: 1 + gen.sign(rng, m) * gen.tiny(rng, m, 0, 9),
                              lambda m: rng.uniform(-10, 10, m), lambda m: np.full(m, 0.5)])


def place(a, b, along, off):
    """position at the angle `along` from a towards b, `off` to the right"""
    c = ref.unit(ref.circle(a, b))
    u = ref.unit(a)
    foot = u * np.cos(along) + ref.cross(c, u) * np.sin(along)
    return (foot * np.cos(off) - c * np.sin(off)).astype(float)


def verdict(a, b, p, rounding=0.0):
    """(inside, outside, cross-track angle): clearly between the end points, clearly not"""
    c = ref.unit(ref.circle(a, b))
    u = ref.unit(a)
    x, y = ref.dot(p, u), ref.dot(p, ref.cross(c, u))
    along = np.arctan2(y, x)
    along = np.where(along < -PI / 2 + ref.angle(a, b) / 2 - PI / 2, along + 2 * ref.PI, along)
    xt = np.arctan2(np.abs(ref.dot(c, p)), np.hypot(x, y))
    th = ref.angle(a, b)
    # the two end points are compared by chords: near the antipode they hardly change with the angle
    margin = (64 * EPS + rounding) / np.maximum(np.cos(th / 2), 1e-6) + 2 * xt + 1e-13 * th
    inside = (along >= margin) & (along <= th - margin)
    outside = (along < -margin) | (along > th + margin)
    return inside, outside, xt


def judge(ctx, name, got, want_on, want_off, info):
    got = np.atleast_1d(got)
    ctx.true(name + ' bool', got.dtype == bool, got)
    ctx.shape(name + ' shape', got, np.shape(want_on))
    ctx.true(name + ': on', got | ~want_on, (got, want_on, info))
    ctx.true(name + ': not on', ~got | ~want_off, (got, want_off, info))
    ctx.tag(name + ' on', want_on.sum())
    ctx.tag(name + ' off', want_off.sum())


def functional(ctx, rng, idx):
    nv = ctx.nv
    k = gen.ncols(rng)
    a = gen.nvec(rng, k)
    b = gen.near(rng, a, length(rng, k, 1e-7, PI - 0.01))
    th = ref.angle(a, b)
    off = gen._pick(rng, k, [np.zeros, np.zeros, lambda m: gen.sign(rng, m) * gen.tiny(rng, m, 0, 14)])
    p = place(a, b, fraction(rng, k) * th, off)
    ends = rng.integers(5, size=k)
    p = np.where(ends == 0, a, p)
    p = np.where(ends == 1, b, p)
    p = np.where((ends == 2) & (rng.integers(4) == 0), -p, p)
    p = np.ascontiguousarray(p)
    pa, pb, pp = a, b, p
    c = rng.integers(5)
    if k > 1 and c == 0:
        pa, pb = np.ascontiguousarray(a[:, :1]), np.ascontiguousarray(b[:, :1])
        a, b = np.repeat(pa, k, axis=1), np.repeat(pb, k, axis=1)
        ends[1:] = 9
    elif k > 1 and c == 1:
        pp = np.ascontiguousarray(p[:, :1])
        p = np.repeat(pp, k, axis=1)
        ends[1:] = 9
    kw, radius, atol = {}, 6371009.0, 1e-8
    m = rng.integers(3)
    if m == 1:
        radius = float(10 ** rng.uniform(-2, 8))
        kw['radius'] = radius
        atol = radius * float(10 ** rng.uniform(-14, -2))
        kw['atol'] = atol
    elif m == 2:
        radius = 10 ** rng.uniform(-2, 8, k)
        kw['radius'] = radius
        atol = 1e8 * float(10 ** rng.uniform(-14, -2))
        kw['atol'] = atol
    got = ctx.do('on_great_circle_path', nv.on_great_circle_path, (pa, pb), gen.layout(rng, pp), **kw)
    inside, outside, xt = verdict(a, b, p)
    noise = 16 * EPS * radius
    on_circle, off_circle = xt * radius < atol - noise, xt * radius > atol + noise
    end = (ends == 0) | (ends == 1)
    info = (a, b, p, kw)
    judge(ctx, 'functional', got, (inside | end) & on_circle, (outside & ~end) | off_circle, info)
    rev = ctx.do('on_great_circle_path', nv.on_great_circle_path, (pb, pa), pp, **kw)
    judge(ctx, 'functional reversed', rev, (inside | end) & on_circle, (outside & ~end) | off_circle, info)
    ctx.tag('end points', end.sum())
    ctx.tag('default tolerance', k * (m == 0))


def depths(rng, k, a, n, f, R):
    zA = depth(rng, n, a, f, R)
    zB = zA if rng.integers(2) else depth(rng, n, a, f, R)
    return zA, zB


def greatcircle(ctx, rng, idx):
    nv = ctx.nv
    fr, a, f, R, ax = frame(ctx, rng)
    k = gen.ncols(rng)
    scalar = k == 1 and bool(rng.integers(2))
    na = gen.nvec(rng, k)
    nb = gen.near(rng, na, length(rng, k, 1e-7, PI - 0.05))
    zA, zB = depths(rng, k, a, na, f, R)
    zM = (zA + zB) / 2
    th = ref.angle(na, nb)
    off = gen._pick(rng, k, [np.zeros, np.zeros, lambda m: gen.sign(rng, m) * gen.tiny(rng, m, 0, 9)])
    npt = place(na, nb, fraction(rng, k) * th, off)
    wrong = gen.sign(rng, k) * 10 ** rng.uniform(-2, 4, k) + gen.sign(rng, k) * 1e-2 * np.abs(zM)
    wrong = np.where(rng.integers(3, size=k) == 0, wrong * a / 6.4e6, 0)
    zP = zM + wrong
    deep = zP > 0.5 * a * (1 - f)
    zP = np.where(deep, zM, zP)
    wrong = zP - zM
    kinds = [KINDS[i] for i in rng.integers(3, size=3)]
    A, B, P = [make_point(ctx, kinds[i], fr, (na, nb, npt)[i], (zA, zB, zP)[i], R, a, f, scalar) for i in range(3)]
    scale = a + np.abs(zA) + np.abs(zB) + np.abs(zP)
    kw = {}
    if rng.integers(3):
        kw['atol'] = float(scale.max() * 1e-13 * 10 ** rng.uniform(0, 6))
    if rng.integers(3) == 0:
        kw['rtol'] = 10 ** rng.uniform(-9, -1.5)
    if rng.integers(3) == 0:
        kw['method'] = 'greatcircle'
    atol = kw.get('atol', 1e-8)
    rtol = kw.get('rtol', 1e-6)
    path = ctx.do('GeoPath', nv.GeoPath, A, B)
    vecs = [ctx.do('to_nvector', X.to_nvector) for X in (A, B, P)]
    n = [np.array(v.normal) for v in vecs]
    z = [ref.ld(np.broadcast_to(v.z, (k,))) for v in vecs]
    radius = (ref.norm(ref.n2p(n[0], z[0], a, f, R)) + ref.norm(ref.n2p(n[1], z[1], a, f, R))) / 2
    got = ctx.do('on_path', path.on_path, P, **kw)
    if scalar:
        ctx.eq('scalar', np.ndim(got), 0)
    inside, outside, xt = verdict(*n)
    noise = 64 * EPS * scale
    mean = (z[0] + z[1]) / 2
    dz, bound = np.abs(z[2] - mean), np.maximum(atol, rtol * np.maximum(np.abs(z[2]), np.abs(mean)))
    same = dz < bound * (1 - 1e-9) - 8 * EPS * scale
    same |= (dz == 0) & (z[0] == z[1])
    differ = dz > bound * (1 + 1e-9) + 8 * EPS * scale
    info = (n, z, kw, a, f, kinds)
    judge(ctx, 'GeoPath', got, inside & (xt * radius < atol - noise) & same,
          outside | (xt * radius > atol + noise) | differ, info)
    ctx.tag('other depth', differ.sum())
    for X, zz, name in ((A, z[0], 'start'), (B, z[1], 'end')):
        got = np.atleast_1d(ctx.do('on_path', path.on_path, X, **kw))
        d = np.abs(zz - mean)
        bound = np.maximum(atol, rtol * np.maximum(np.abs(zz), np.abs(mean)))
        same = (d < bound * (1 - 1e-9) - 8 * EPS * scale) | (z[0] == z[1])
        differ = d > bound * (1 + 1e-9) + 8 * EPS * scale
        judge(ctx, 'GeoPath ' + name, got, same & (16 * EPS * radius < atol), differ, info)
    ctx.tag('scalar' if scalar else 'vector')


def ellipsoid(ctx, rng, idx):
    nv = ctx.nv
    fr, a, f, R, ax = frame(ctx, rng)
    k = min(4, gen.ncols(rng))
    scalar = k == 1 and bool(rng.integers(2))
    lat, lon = gen.lat(rng, k, poles=False), gen.lon(rng, k)
    lat = np.clip(lat, -1.55, 1.55)
    z = gen.depth(rng, k, a, deep=False)
    zB = z if rng.integers(2) else z + rng.uniform(-1, 1, k) * 1e-3 * a
    zM = (z + zB) / 2
    az = gen.angle(rng, k, turns=False)
    s = length(rng, k, 1e-3, 2.8)
    s = np.minimum(s, 2.8)
    t = fraction(rng, k)
    kind = rng.integers(6, size=k)
    turn = np.where(kind == 0, gen.sign(rng, k) * 10 ** rng.uniform(-3, 0, k), 0)   # off the geodesic
    dz = np.where(kind == 1, gen.sign(rng, k) * (10 ** rng.uniform(-4, -2, k) * (a + 10 * np.abs(z))), 0)
    A = ctx.do('GeoPoint', nv.GeoPoint, *[float(x[0]) if scalar else x for x in (lat, lon, z)], frame=fr)
    out = np.empty((2, 2, k))
    t = np.where(t * s > PI, 1.5, np.where(t * s < -PI, -0.5, t))
    t = np.where(np.abs(t * s) > 2.9, 0.5, t)
    end = rng.integers(6, size=k)
    t = np.where(end == 0, 0, np.where(end == 1, 1, t))
    for i in range(k):
        g = pyproj.Geod(a=a - zM[i], f=f)
        for j, (d, q) in enumerate(((s[i], az[i]), (t[i] * s[i], az[i] + turn[i]))):
            lo, la, _ = g.fwd(np.rad2deg(lon[i]), np.rad2deg(lat[i]), np.rad2deg(q), d * (a - zM[i]))
            out[j, :, i] = np.deg2rad(la), np.deg2rad(lo)
    (latB, lonB), (latP, lonP) = out
    latP = np.where(t == 0, lat, np.where((t == 1) & (turn == 0), latB, latP))
    lonP = np.where(t == 0, lon, np.where((t == 1) & (turn == 0), lonB, lonP))
    zP = zM + dz
    B = ctx.do('GeoPoint', nv.GeoPoint, *[float(x[0]) if scalar else x for x in (latB, lonB, zB)], frame=fr)
    P = ctx.do('GeoPoint', nv.GeoPoint, *[float(x[0]) if scalar else x for x in (latP, lonP, zP)], frame=fr)
    path = ctx.do('GeoPath', nv.GeoPath, A, B)
    method = ('ellipsoid', 'exact')[rng.integers(2)]
    got = ctx.do('on_path ellipsoid', path.on_path, P, method=method)
    if scalar:
        ctx.eq('scalar', np.ndim(got), 0)
    inside = (t * s > 1e-6) & (t < 1 - 1e-9) & (turn == 0) & (dz == 0)
    end = ((t == 0) | ((t == 1) & (turn == 0))) & (dz == 0)
    gone = np.abs(t * s) * (a - zM)     # distance from the start; the absolute tolerance is a length
    outside = ((t > 1 + 1e-9) | ((t * s < -1e-6) & (gone > 2e-8))
               | ((turn != 0) & (np.abs(t * s) > 1e-6) & (gone * np.abs(turn) > 2e-8)) | (dz != 0))
    info = (lat, lon, z, az, s, t, turn, dz, a, f)
    judge(ctx, 'ellipsoid', got, inside | end, outside, info)
    if (z == zB).all():
        for X, name in ((A, 'start'), (B, 'end')):
            got = ctx.do('on_path ellipsoid', path.on_path, X, method=method)
            judge(ctx, 'ellipsoid ' + name, got, np.ones(k, bool), np.zeros(k, bool), info)
    ctx.tag('ellipsoid: end point', end.sum())
    ctx.tag('ellipsoid: different depths', k * (not (z == zB).all()))


def tolerance(ctx, rng, idx):
    """the tolerances of the ellipsoid method: atol is a length, rtol relative to depth and distance travelled"""
    nv = ctx.nv
    fr, a, f, R, ax = frame(ctx, rng)
    k = min(4, gen.ncols(rng))
    scalar = k == 1 and bool(rng.integers(2))
    lat, lon = rng.uniform(-1.2, 1.2, k), gen.lon(rng, k)
    z = gen.depth(rng, k, a, deep=False) * rng.integers(2)
    zB = z if rng.integers(2) else z + rng.uniform(-1, 1, k) * 1e-3 * a
    zM = (z + zB) / 2
    kw, atol, rtol = {}, 1e-8, 1e-6
    if rng.integers(3):
        atol = kw['atol'] = float(a * 10 ** rng.uniform(-12, -3))
    if rng.integers(3):
        rtol = kw['rtol'] = float(10 ** rng.uniform(-8, -1.5))
    r = a - zM
    az = gen.angle(rng, k, turns=False)
    s = rng.uniform(0.05, 2, k)
    t = rng.uniform(0.05, 0.95, k)
    what = rng.integers(6, size=k)
    near = what == 3
    within = 'atol' in kw
    factor = rng.choice([0.9, 1.1], k)
    t = np.where(near & within, factor * atol / (s * r), t)
    d = t * s * r
    tol = np.maximum(atol, rtol * d)
    half = rng.choice([0.3, 4.], k)
    turn = np.where((what == 1) | (what == 2), gen.sign(rng, k) * half * tol / d, 0)
    turn = np.where(np.abs(turn) > 0.5, 0, turn)
    turn = np.where(near & within, PI, turn)
    bound = np.maximum(atol, rtol * np.abs(zM))
    dz = np.where((what == 4) | (what == 5), -np.where(zM < 0, -1, 1) * bound * factor, 0)   # towards the surface
    dz = np.where(np.abs(dz) > 1e-9 * (a + np.abs(zM)), dz, 0)
    out = np.empty((2, 2, k))
    for i in range(k):
        g = pyproj.Geod(a=r[i], f=f)
        for j, (u, q) in enumerate(((s[i] * r[i], az[i]), (d[i], az[i] + turn[i]))):
            lo, la, _ = g.fwd(np.rad2deg(lon[i]), np.rad2deg(lat[i]), np.rad2deg(q), u)
            out[j, :, i] = np.deg2rad(la), np.deg2rad(lo)
    (latB, lonB), (latP, lonP) = out
    A, B, P = [ctx.do('GeoPoint', nv.GeoPoint, *[float(x[0]) if scalar else x for x in v], frame=fr)
               for v in ((lat, lon, z), (latB, lonB, zB), (latP, lonP, zM + dz))]
    path = ctx.do('GeoPath', nv.GeoPath, A, B)
    got = ctx.do('on_path ellipsoid', path.on_path, P, method='ellipsoid', **kw)
    if scalar:
        ctx.eq('scalar', np.ndim(got), 0)
    on, off = np.ones(k, bool), np.zeros(k, bool)
    on &= (np.abs(turn) < 0.5 * tol / d) | (near & within & (factor < 1))
    off |= (turn != 0) & (np.abs(turn) > 2 * tol / d) & (d > 2 * atol)
    off |= near & within & (factor > 1)
    bound = np.maximum(atol, rtol * np.maximum(np.abs(zM), np.abs(zM + dz)))
    on &= np.abs(dz) < bound * (1 - 1e-6)
    off |= np.abs(dz) > bound * (1 + 1e-6)
    judge(ctx, 'ellipsoid tolerance', got, on, off, (lat, lon, z, zB, az, s, t, turn, dz, kw, a, f))
    ctx.tag('tolerance: off the geodesic', ((turn != 0) & ~near).sum())
    ctx.tag('tolerance: next to the start', (near & within).sum())
    ctx.tag('tolerance: depth', (dz != 0).sum())


WORKLOADS = [('functional', functional, 5000, 200000), ('greatcircle', greatcircle, 3000, 80000),
             ('ellipsoid', ellipsoid, 3000, 50000), ('tolerance', tolerance, 2000, 40000)]
REQUIRE = [x + y for x in ('functional', 'functional reversed', 'GeoPath', 'ellipsoid', 'ellipsoid tolerance') for y in (': on', ': not on')] + [
    'GeoPath start: on', 'GeoPath end: on', 'ellipsoid start: on', 'ellipsoid end: on']
