"""C16: interpolation along a path"""
import numpy as np

from rtm import gen, ref
from rtm.props.c02 import depth
from rtm.props.common import EPS, KINDS, PI, frame, make_point

TECHNIQUE = 'extended-precision chord interpolation, with end point, midpoint, incidence and depth monitors'


def ends(rng, k):
    a = gen.nvec(rng, k)
    b = gen.partner(rng, a, antipodal=bool(rng.integers(2)))
    return a, b


def fractions(rng, k):
    return gen._pick(rng, k, [lambda m: rng.uniform(0, 1, m), lambda m: rng.uniform(0, 1, m), np.zeros, np.ones,
                              lambda m: np.full(m, 0.5), lambda m: gen.tiny(rng, m, 0, 16),
                              lambda m: rng.uniform(-2, 3, m), lambda m: gen.sign(rng, m) * 10 ** rng.uniform(0, 6, m)])


def judge(ctx, name, got, a, b, t, info):
    t = ref.ld(t)
    v = (1 - t) * ref.ld(a) + t * ref.ld(b)
    size = ref.norm(v)
    tol = 8 * EPS * (1 + np.abs(t)) / np.maximum(size, 1e-30)
    ok = tol < 1e-3
    with np.errstate(all='ignore'):
        want = ref.unit(v)
    ctx.close(name, np.where(ok, got, 0), np.where(ok, want, 0), tol, info)
    none = (a == -b).all(axis=0) & (t == 0.5)
    ctx.true(name + ' no midpoint of opposite ends', np.isnan(got).all(axis=0) | ~none, info)
    ctx.tag('opposite ends, midpoint', none.sum())
    ctx.close(name + ' unit length', np.where(ok, ref.norm(got), 1), np.ones(np.shape(ok)), 8 * EPS, info)
    start, end = ok & (t == 0), ok & (t == 1)
    ctx.close(name + ' start', np.where(start, got, 0), np.where(start, ref.unit(a), 0), 8 * EPS, info)
    ctx.close(name + ' end', np.where(end, got, 0), np.where(end, ref.unit(b), 0), 8 * EPS, info)
    th = ref.angle(a, b)
    c = ref.circle(a, b)
    with np.errstate(all='ignore'):
        off = np.where(th > 1e-12, ref.dot(c, got) / ref.norm(c), 0)
    loose = tol + 4 * EPS / np.maximum(np.sin(th), 1e-30)
    ctx.close(name + ' on the great circle', np.where(ok & (th > 1e-12) & (loose < 1e-3), off, 0), np.zeros(np.shape(ok)),
              loose, info)
    mid = ok & (t == 0.5)
    ctx.close(name + ' midpoint', np.where(mid, ref.angle(a, got) - ref.angle(got, b), 0), np.zeros(np.shape(ok)),
              4 * tol, info)
    inside = ok & (t > 0) & (t < 1)
    ctx.close(name + ' between', np.where(inside, ref.angle(a, got) + ref.angle(got, b), 0), np.where(inside, th, 0),
              8 * tol, info)
    for s, w in ((start, 'start'), (end, 'end'), (mid, 'midpoint'), (inside, 'between'), (~ok, 'ill conditioned')):
        ctx.tag(w, np.sum(s))


def functional(ctx, rng, idx):
    nv = ctx.nv
    k = gen.ncols(rng)
    a, b = ends(rng, k)
    t = fractions(rng, k)
    pa, pb, tt = a, b, t
    c = rng.integers(4)
    if c == 0 and k > 1:
        pa, pb = np.ascontiguousarray(a[:, :1]), np.ascontiguousarray(b[:, :1])
        a, b = np.repeat(pa, k, axis=1), np.repeat(pb, k, axis=1)
    elif c == 1:
        tt = float(t[0])
        t = np.full(k, tt)
    got = ctx.do('interpolate', nv.interpolate, (gen.layout(rng, pa), pb), tt)
    ctx.shape('shape', got, (3, k))
    judge(ctx, 'interpolate', got, a, b, t, (a, b, t))
    rev = ctx.do('interpolate', nv.interpolate, (pb, pa), 1 - tt)
    judge(ctx, 'interpolate reversed', rev, b, a, 1 - ref.ld(np.asarray(1 - (1 - tt))), (a, b, t))


def objects(ctx, rng, idx):
    nv = ctx.nv
    fr, a, f, R, ax = frame(ctx, rng)
    k = gen.ncols(rng)
    scalar = k == 1 and bool(rng.integers(2))
    na, nb = ends(rng, k)
    zA, zB = depth(rng, na, a, f, R), depth(rng, nb, a, f, R)
    if a > 1e5 and rng.integers(4) == 0:
        zA, zB = rng.integers(-99, 99, k), rng.integers(-99, 99, k)
        ctx.tag('integer depths')
    kinds = [KINDS[i] for i in rng.integers(3, size=2)]
    A = make_point(ctx, kinds[0], fr, na, zA, R, a, f, scalar)
    B = make_point(ctx, kinds[1], fr, nb, zB, R, a, f, scalar)
    vA, vB = ctx.do('to_nvector', A.to_nvector), ctx.do('to_nvector', B.to_nvector)
    path = ctx.do('GeoPath', nv.GeoPath, A, B)
    t = fractions(rng, k)
    arg = t
    many = False
    if scalar or rng.integers(3) == 0:
        arg = float(t[0])
        t = np.full(k, arg)
    if scalar and rng.integers(3) == 0:
        many = True
        arg = t = fractions(rng, 5)
    C = ctx.do('GeoPath.interpolate', path.interpolate, arg)
    m = t.size
    one = np.ones((1, m if k == 1 else 1))
    n1, n2 = vA.normal * one, vB.normal * one
    z1, z2 = ref.ld(vA.z) * one[0], ref.ld(vB.z) * one[0]
    info = (n1, n2, t, kinds, a, f)
    ctx.shape('GeoPath shape', C.normal, (3, m))
    judge(ctx, 'GeoPath', C.normal, n1, n2, t, info)
    want = z1 + (z2 - z1) * ref.ld(t)
    ctx.close('depth', np.atleast_1d(C.z), want, 8 * EPS * (1 + np.abs(t)) * (np.abs(z1) + np.abs(z2)) + EPS * a, info)
    ctx.eq('depth scalar', np.ndim(C.z) == 0, scalar and not many)
    ctx.true('frame kept', isinstance(C, nv.Nvector) and C.frame == fr)
    ctx.tag('kinds ' + '-'.join(kinds))


WORKLOADS = [('functional', functional, 4000, 150000), ('objects', objects, 3000, 80000)]
REQUIRE = [x + y for x in ('interpolate', 'GeoPath') for y in ('', ' start', ' end', ' midpoint', ' between', ' no midpoint of opposite ends',
                                                               ' on the great circle')] + ['depth', 'frame kept']
