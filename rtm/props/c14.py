"""C14: closest point on a great circle or path"""
import numpy as np

from rtm import gen, ref
from rtm.props.c02 import depth
from rtm.props.c12 import path_of, position
from rtm.props.common import EPS, KINDS, PI, frame, make_point

TECHNIQUE = ('minimality oracle: extended-precision distance of the returned point against the distance to the circle '
             'or path, plus incidence, foot-point and depth monitors')


def judge_circle(ctx, name, got, a, b, p, info):
    c = ref.unit(ref.circle(a, b))
    ctx.close(name + ' unit', ref.norm(got), np.ones(got.shape[1]), 8 * EPS, info)
    ctx.close(name + ' on the circle', ref.dot(c, got), np.zeros(got.shape[1]), 16 * EPS, info)
    best = np.arctan2(np.abs(ref.dot(c, p)), ref.norm(ref.cross(c, p)))
    ctx.close(name + ' minimal', ref.angle(p, got), best, 16 * EPS, info)
    side = ref.norm(ref.cross(c, p))
    tol = 24 * EPS / np.maximum(side, 1e-30)
    ok = tol < 1e-3
    with np.errstate(all='ignore'):
        want = ref.foot(a, b, p)
    ctx.close(name + ' foot', np.where(ok, got, 0), np.where(ok, want, 0), tol, info)
    ctx.tag('foot ill conditioned', (~ok).sum())
    # no other point of the circle is closer
    for t in (0.3, 1.7, -2.2):
        other = ref.unit(a) * np.cos(t) + ref.cross(c, ref.unit(a)) * np.sin(t)
        ctx.true(name + ' nobody is closer', ref.angle(p, got) <= ref.angle(p, other) + 16 * EPS, info)


def functional(ctx, rng, idx):
    nv = ctx.nv
    k = gen.ncols(rng)
    a, b = path_of(rng, k)
    p, _off = position(rng, a, b)
    if rng.integers(3) == 0:
        p = gen.nvec(rng, k)
    if rng.integers(8) == 0:
        p = [a, b, -a][rng.integers(3)]
    pa, pb, pp = a, b, p
    c = rng.integers(4)
    if k > 1 and c == 0:
        pa, pb = np.ascontiguousarray(a[:, :1]), np.ascontiguousarray(b[:, :1])
        a, b = np.repeat(pa, k, axis=1), np.repeat(pb, k, axis=1)
    elif k > 1 and c == 1:
        pp = np.ascontiguousarray(p[:, :1])
        p = np.repeat(pp, k, axis=1)
    got = ctx.do('closest_point_on_great_circle', nv.closest_point_on_great_circle, (pa, pb), gen.layout(rng, pp))
    ctx.shape('shape', got, (3, k))
    judge_circle(ctx, 'closest', got, a, b, p, (a, b, p))
    rev = ctx.do('closest_point_on_great_circle', nv.closest_point_on_great_circle, (pb, pa), pp)
    judge_circle(ctx, 'closest, reversed path', rev, a, b, p, (a, b, p))
    again = ctx.do('closest_point_on_great_circle', nv.closest_point_on_great_circle, (pa, pb), got)
    ctx.close('idempotent', again, got, 24 * EPS, (a, b, p))


def objects_circle(ctx, rng, idx):
    nv = ctx.nv
    fr, a, f, R, ax = frame(ctx, rng)
    k = gen.ncols(rng)
    scalar = k == 1 and bool(rng.integers(2))
    na, nb = path_of(rng, k, 1e-7)
    npt, _off = position(rng, na, nb)
    z = [depth(rng, n, a, f, R) for n in (na, nb, npt)]
    kinds = [KINDS[i] for i in rng.integers(3, size=3)]
    A, B, P = [make_point(ctx, kinds[i], fr, (na, nb, npt)[i], z[i], R, a, f, scalar) for i in range(3)]
    vecs = [ctx.do('to_nvector', X.to_nvector) for X in (A, B, P)]
    n = [np.array(v.normal) for v in vecs]
    path = ctx.do('GeoPath', nv.GeoPath, A, B)
    C = ctx.do('GeoPath.closest_point_on_great_circle', path.closest_point_on_great_circle, P)
    info = (n, a, f, ax, kinds)
    ctx.true('GeoPoint of the frame', isinstance(C, nv.GeoPoint) and C.frame == fr)
    ctx.eq('scalar', np.ndim(C.z) == 0, scalar)
    got = ref.latlon2n(np.atleast_1d(C.latitude), np.atleast_1d(C.longitude), R)
    judge_circle(ctx, 'GeoPath closest', got, n[0], n[1], n[2], info)
    ctx.close('mean depth', np.atleast_1d(C.z), (ref.ld(vecs[0].z) + ref.ld(vecs[1].z)) / 2 * np.ones(k),
              8 * EPS * (a + np.abs(z[0]) + np.abs(z[1])), info)


def on_path(ctx, rng, idx):
    """closest point on the path: foot inside, otherwise the nearer end point with its own depth"""
    nv = ctx.nv
    fr, a, f, R, ax = frame(ctx, rng)
    lo = 1e-6
    na, nb = path_of(rng, 1, lo)
    npt, _off = position(rng, na, nb)
    m = rng.integers(8)
    if m <= 2:     # around the path
        c = ref.unit(ref.circle(na, nb))
        th = ref.angle(na, nb)
        t = gen._pick(rng, 1, [lambda k: rng.uniform(-.5, 1.5, k), lambda k: rng.uniform(0, 1, k),
                               lambda k: gen.sign(rng, k) * gen.tiny(rng, k, 0, 9),
                               lambda k: 1 + gen.sign(rng, k) * gen.tiny(rng, k, 0, 9)]) * th
        off = rng.normal() * 10 ** rng.uniform(-8, 0)
        foot = ref.unit(na) * np.cos(t) + ref.cross(c, ref.unit(na)) * np.sin(t)
        npt = (foot * np.cos(off) - c * np.sin(off)).astype(float)
    elif m == 3:
        npt = [na, nb, -na, -nb, gen.normalize(na + nb), -gen.normalize(na + nb)][rng.integers(6)]
    z = [depth(rng, n, a, f, R) for n in (na, nb, npt)]
    kinds = [KINDS[i] for i in rng.integers(3, size=3)]
    scalar = bool(rng.integers(3))
    A, B, P = [make_point(ctx, kinds[i], fr, (na, nb, npt)[i], z[i], R, a, f, scalar) for i in range(3)]
    vecs = [ctx.do('to_nvector', X.to_nvector) for X in (A, B, P)]
    n = [np.array(v.normal) for v in vecs]
    zs = [ref.ld(v.z).reshape(-1)[:1] for v in vecs]
    path = ctx.do('GeoPath', nv.GeoPath, A, B)
    C = ctx.do('GeoPath.closest_point_on_path', path.closest_point_on_path, P)
    ctx.true('path GeoPoint', isinstance(C, nv.GeoPoint) and C.frame == fr)
    ctx.eq('path scalar', np.ndim(C.z) == 0, scalar)
    got = ref.latlon2n(np.atleast_1d(C.latitude), np.atleast_1d(C.longitude), R)
    c = ref.unit(ref.circle(n[0], n[1]))
    th = ref.angle(n[0], n[1])[0]
    u = ref.unit(n[0])
    x, y = ref.dot(n[2], u)[0], ref.dot(n[2], ref.cross(c, u))[0]
    along = np.arctan2(y, x)
    side = np.hypot(x, y)
    dA, dB = ref.angle(n[2], n[0])[0], ref.angle(n[2], n[1])[0]
    circle = np.arctan2(np.abs(ref.dot(c, n[2]))[0], side)
    noise = 64 * EPS / max(float(side), 1e-30) + 64 * EPS
    info = (n, z, kinds, a, f, ax, float(along), float(th))
    candidates = []
    if -noise <= along <= th + noise:
        candidates.append('foot')
    if not (noise < along < th - noise):
        if dA <= dB + noise:
            candidates.append('A')
        if dB <= dA + noise:
            candidates.append('B')
    best = min([circle if 'foot' in candidates else np.inf, dA, dB])
    ctx.close('path minimal', ref.angle(n[2], got)[0], best, 64 * EPS + noise * (noise > 1e-9), info)
    scale = a + np.abs(z[0][0]) + np.abs(z[1][0])
    errs = []
    for cand in candidates:
        want, depth_ = {'foot': (ref.foot(n[0], n[1], n[2]), (zs[0] + zs[1]) / 2),
                        'A': (n[0], zs[0]), 'B': (n[1], zs[1])}[cand]
        tol = 32 * EPS + (noise if cand == 'foot' else 0)
        errs.append(bool((ref.norm(want - got) <= tol).all() and
                         np.abs(np.atleast_1d(C.z) - depth_)[0] <= 64 * EPS * scale))
    if noise < 1e-3:
        ctx.true('path point and depth', any(errs), (candidates, C, n, z, kinds, a, f))
        ctx.tag('closest is ' + '/'.join(candidates))
    else:
        ctx.tag('undetermined')


WORKLOADS = [('functional', functional, 5000, 200000), ('objects_circle', objects_circle, 2000, 50000),
             ('on_path', on_path, 5000, 120000)]
REQUIRE = ['closest minimal', 'closest foot', 'closest on the circle', 'closest nobody is closer', 'idempotent',
           'GeoPath closest minimal', 'mean depth', 'path minimal', 'path point and depth']
