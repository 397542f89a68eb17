"""C12: cross-track distance and on_great_circle"""
import numpy as np

from rtm import gen, ref
from rtm.props.c02 import depth
from rtm.props.common import EPS, KINDS, PI, frame, make_point

TECHNIQUE = ('extended-precision signed angle to the circle, construction from hidden offsets, reversal and '
             'tolerance-threshold monitors')


def path_of(rng, k, lo=1e-8):
    """end points lo..pi-lo apart"""
    a = gen.nvec(rng, k)
    m = rng.integers(5, size=k)
    ang = rng.uniform(0.01, PI - 0.01, k)
    ang = np.where(m == 0, lo * (1 / lo) ** rng.uniform(0, 1, k), ang)
    ang = np.where(m == 1, PI - lo * (1 / lo) ** rng.uniform(0, 1, k), ang)
    ang = np.where(m == 2, PI / 2, ang)
    b = gen.near(rng, a, ang)
    # along the equator and meridians of the axes
    i, j = rng.permutation(3)[:2]
    m = rng.integers(6, size=k) == 0
    th = rng.choice([0, PI / 2, PI, -PI / 2, 1.0], k)
    ex, ey = np.eye(3)[:, i:i + 1], np.eye(3)[:, j:j + 1]
    a = np.where(m, gen.normalize(ex * np.cos(th) + ey * np.sin(th)), a)
    b = np.where(m, gen.normalize(ex * np.cos(th + ang) + ey * np.sin(th + ang)), b)
    return np.ascontiguousarray(a), np.ascontiguousarray(b)


def offset(rng, k):
    return gen._pick(rng, k, [lambda m: rng.uniform(-PI / 2, PI / 2, m), lambda m: gen.sign(rng, m) * gen.tiny(rng, m, 0, 16),
                              np.zeros, lambda m: gen.sign(rng, m) * PI / 2,
                              lambda m: gen.sign(rng, m) * (PI / 2 - gen.tiny(rng, m, 0, 16))])


def position(rng, a, b):
    """a position `off` to the right of the circle, `t` along it from a; and generic ones"""
    k = a.shape[1]
    c = ref.unit(ref.circle(a, b))
    a = ref.unit(a)
    tangent = ref.cross(c, a)
    t, off = rng.uniform(-PI, PI, k), offset(rng, k)
    foot = a * np.cos(t) + tangent * np.sin(t)
    travel = tangent * np.cos(t) - a * np.sin(t)
    right = ref.cross(travel, foot)
    p = foot * np.cos(off) + right * np.sin(off)
    return p.astype(float), off


def signed(a, b, p):
    c = ref.unit(ref.circle(a, b))
    return np.arctan2(-ref.dot(c, p), ref.norm(ref.cross(c, p)))


def functional(ctx, rng, idx):
    nv = ctx.nv
    k = gen.ncols(rng)
    a, b = path_of(rng, k)
    p, off = position(rng, a, b)
    generic = rng.integers(4) == 0
    if generic:
        p, off = gen.nvec(rng, k), None
    special = rng.integers(8) == 0
    if special:
        p, off = [(a, np.zeros(k)), (b, np.zeros(k)), (-a, np.zeros(k))][rng.integers(3)]
    pa, pb, pp = a, b, p
    c = rng.integers(4)
    if k > 1 and c == 0:
        pa, pb = np.ascontiguousarray(a[:, :1]), np.ascontiguousarray(b[:, :1])
        a, b = np.repeat(pa, k, axis=1), np.repeat(pb, k, axis=1)
        off = None
    elif k > 1 and c == 1:
        pp = np.ascontiguousarray(p[:, :1])
        p = np.repeat(pp, k, axis=1)
        off = None
    radius, kw = 6371009.0, {}
    m = rng.integers(4)
    if m == 1:
        radius = float(10 ** rng.uniform(-3, 9))
        kw = dict(radius=radius)
    elif m == 2:
        radius = 10 ** rng.uniform(-3, 9, k)
        kw = dict(radius=radius)
    elif m == 3:
        radius = 1
        kw = dict(radius=1)
    want = signed(a, b, p)
    info = (a, b, p, kw)
    got = ctx.do('cross_track_distance', nv.cross_track_distance, (pa, pb), gen.layout(rng, pp), **kw)
    ctx.close('cross_track_distance', got, want * radius, 16 * EPS * radius, info)
    if off is not None and not generic:
        ctx.close('hidden offset', got, off * radius, 24 * EPS / np.sin(ref.angle(a, b)) * radius, info)
    got_e = ctx.do('cross_track_distance', nv.cross_track_distance, (pa, pb), pp, method='euclidean', **kw)
    ctx.close('cross_track_distance euclidean', got_e, np.sin(want) * radius, 16 * EPS * radius, info)
    back = ctx.do('cross_track_distance', nv.cross_track_distance, (pb, pa), pp,
                  method='greatcircle', **kw)
    ctx.close('reversed path', back, -got, 16 * EPS * radius, info)
    # threshold clearly below and above the distance
    factor = 1 + 10 ** rng.uniform(-9, 0)
    noise = 16 * EPS * np.max(radius)
    true = np.abs(want) * radius
    col = rng.integers(k)
    base = float(true[col])
    for atol, name in ((base * factor + 2 * noise, 'on'), (base / factor - 2 * noise, 'off')):
        if atol < 0:
            continue
        on = ctx.do('on_great_circle', nv.on_great_circle, (pa, pb), pp, atol=atol, **kw)
        ctx.shape('on_great_circle shape', on, (k,))
        judge_on(ctx, 'on_great_circle', on, true, atol, noise, info)
        ctx.tag('threshold ' + name)
    on = ctx.do('on_great_circle', nv.on_great_circle, (pa, pb), pp, **kw)
    judge_on(ctx, 'on_great_circle default tolerance', on, true, 1e-8, noise, info)
    ctx.tag('on the circle', (true < 4 * EPS * radius).sum())
    ctx.tag('at the pole of the circle', (true > (PI / 2 - 1e-15) * radius).sum())


def judge_on(ctx, name, on, true, atol, noise, info):
    on = np.atleast_1d(on)
    ctx.true(name + ' bool', on.dtype == bool, on)
    inside = true < atol - noise
    outside = true > atol + noise
    ctx.true(name, (on | ~inside) & (~on | ~outside), (on, true, atol, info))
    ctx.tag('judged on', inside.sum())
    ctx.tag('judged off', outside.sum())


def objects(ctx, rng, idx):
    nv = ctx.nv
    fr, a, f, R, ax = frame(ctx, rng)
    k = gen.ncols(rng)
    scalar = k == 1 and bool(rng.integers(2))
    na, nb = path_of(rng, k, 1e-7)
    npt, _off = position(rng, na, nb)
    z = [depth(rng, n, a, f, R) for n in (na, nb, npt)]
    kinds = [KINDS[i] for i in rng.integers(3, size=3)]
    A, B, P = [make_point(ctx, kinds[i], fr, (na, nb, npt)[i], z[i], R, a, f, scalar) for i in range(3)]
    vecs = [ctx.do('to_nvector', X.to_nvector) for X in (A, B, P)]
    n = [np.array(v.normal) for v in vecs]
    zs = [np.atleast_1d(v.z) for v in vecs]
    want = signed(*n)
    path = ctx.do('GeoPath', nv.GeoPath, A, B)
    kw, m = {}, rng.integers(3)
    mean = (ref.norm(ref.n2p(n[0], zs[0], a, f, R)) + ref.norm(ref.n2p(n[1], zs[1], a, f, R))) / 2
    scale = a + np.abs(zs[0]) + np.abs(zs[1])
    radius = mean
    if m == 1:
        radius = float(10 ** rng.uniform(-3, 8))
        kw = dict(radius=radius)
    elif m == 2 and not scalar:
        radius = 10 ** rng.uniform(-3, 8, k)
        kw = dict(radius=radius)
    extra = 64 * EPS * (scale if not kw else radius)
    info = (n, zs, kw, a, f, ax, kinds)
    got = ctx.do('GeoPath.cross_track_distance', path.cross_track_distance, P, **kw)
    if scalar:
        ctx.eq('scalar', np.ndim(got), 0)
    ctx.close('GeoPath cross-track', np.atleast_1d(got), want * radius, extra, info)
    got = ctx.do('GeoPath.cross_track_distance', path.cross_track_distance, P, method='euclidean', **kw)
    ctx.close('GeoPath cross-track euclidean', np.atleast_1d(got), np.sin(want) * radius, extra, info)
    true = np.abs(want) * mean
    noise = 64 * EPS * np.max(scale)
    atol = float(true[rng.integers(k)])
    for tol in (atol * 1.001 + 2 * noise, atol * 0.999 - 2 * noise):
        if tol > 0:
            on = ctx.do('GeoPath.on_great_circle', path.on_great_circle, P, atol=tol)
            if scalar:
                ctx.eq('scalar predicate', np.ndim(on), 0)
            judge_on(ctx, 'GeoPath on_great_circle', on, true, tol, noise, info)
    on = ctx.do('GeoPath.on_great_circle', path.on_great_circle, P)
    judge_on(ctx, 'GeoPath on_great_circle default', on, true, 1e-8, noise, info)
    ctx.tag('kinds ' + '-'.join(kinds))


WORKLOADS = [('functional', functional, 5000, 200000), ('objects', objects, 2500, 60000)]
REQUIRE = ['cross_track_distance', 'hidden offset', 'cross_track_distance euclidean', 'reversed path',
           'on_great_circle', 'GeoPath cross-track', 'GeoPath on_great_circle', 'GeoPath cross-track euclidean']
