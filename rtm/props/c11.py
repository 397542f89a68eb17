"""C11: intersection of two paths"""
import numpy as np

from rtm import gen, ref
from rtm.props.common import EPS, KINDS, frame, make_point

TECHNIQUE = ('extended-precision intersection, incidence residuals on both circles, choice-of-candidate and '
             'degeneracy monitors')


def crossing(rng, k):
    """two paths through a hidden crossing point, or two independent paths"""
    a1, a2 = gen.generic_pair(rng, k, 1e-8)
    b1, b2 = gen.generic_pair(rng, k, 1e-8)
    m = rng.integers(3, size=k)
    c = gen.nvec(rng, k)
    t1, t2 = gen.perp(rng, c), gen.perp(rng, c)
    # circles that nearly coincide cross as well defined as others
    t2 = np.where((rng.random(k) < .3), gen.normalize(t1 + t2 * 10.0 ** rng.uniform(-11, -1, k)), t2)
    s = rng.uniform(-3, 3, (4, k))
    for i, j in ((0, 1), (2, 3)):
        same = np.abs(np.sin(s[i] - s[j])) < 0.05
        s[j] = np.where(same, s[i] + 0.5, s[j])
    arc = (lambda t, x: gen.normalize(c * np.cos(x) + t * np.sin(x)))
    h = m == 0
    a1, a2 = np.where(h, arc(t1, s[0]), a1), np.where(h, arc(t1, s[1]), a2)
    b1, b2 = np.where(h, arc(t2, s[2]), b1), np.where(h, arc(t2, s[3]), b2)
    # meridians and the equator
    e = m == 1
    lon = gen.lon(rng, k)
    mer = (lambda la: np.vstack((np.sin(la), np.cos(la) * np.sin(lon), -np.cos(la) * np.cos(lon))))
    la = np.sort(rng.uniform(-1.5, 1.5, (2, k)), axis=0)
    la[1] = np.where(la[1] - la[0] < 0.01, la[0] + 0.1, la[1])
    a1, a2 = np.where(e, mer(la[0]), a1), np.where(e, mer(la[1]), a2)
    return [np.ascontiguousarray(x) for x in (a1, a2, b1, b2)]


def model(a1, a2, b1, b2):
    ca, cb = ref.circle(a1, a2), ref.circle(b1, b2)
    sa, sb = ref.norm(ca), ref.norm(cb)
    with np.errstate(all='ignore'):
        gamma = ref.norm(ref.cross(ca / sa, cb / sb))
        c = ref.unit(ref.cross(ca, cb))
        c = np.where(ref.dot(c, a1) < 0, -c, c)
        tol = 16 * EPS / gamma
    return c, tol, sa, sb


def judge(ctx, name, got, paths, info):
    a1, a2, b1, b2 = paths
    want, tol, sa, sb = model(*paths)
    k = want.shape[1]
    ok = tol < 1e-3
    ctx.close(name + ' unit length', ref.norm(got)[ok], np.ones(ok.sum()), 8 * EPS)
    side = np.abs(ref.dot(want, a1))
    clear = ok & (side > 4 * tol)
    # without a clear side either candidate is right
    flip = np.where(~clear & ok & (ref.dot(got, want) < 0), -1, 1)
    ctx.close(name, np.where(ok, got * flip, 0), np.where(ok, want, 0), tol, info)
    with np.errstate(all='ignore'):
        res_a = np.abs(ref.dot(got, ref.circle(a1, a2) / sa))
        res_b = np.abs(ref.dot(got, ref.circle(b1, b2) / sb))
    ctx.close(name + ' on path a', np.where(ok, res_a, 0), np.zeros(k), tol, info)
    ctx.close(name + ' on path b', np.where(ok, res_b, 0), np.zeros(k), tol, info)
    ctx.true(name + ' in the hemisphere of A1', (ref.dot(got, a1) >= -4 * tol) | ~ok, info)
    ctx.tag('clear side', clear.sum())
    ctx.tag('ill conditioned', (~ok).sum())
    return ok


def functional(ctx, rng, idx):
    nv = ctx.nv
    k = gen.ncols(rng)
    paths = crossing(rng, k)
    shown = list(paths)
    if k > 1 and rng.integers(3) == 0:
        j = 2 * rng.integers(2)
        shown[j], shown[j + 1] = [np.ascontiguousarray(x[:, :1]) for x in shown[j:j + 2]]
        paths[j], paths[j + 1] = [np.repeat(x, k, axis=1) for x in shown[j:j + 2]]
    got, caught = ctx.warned('intersect', nv.intersect, (shown[0], shown[1]), (shown[2], shown[3]))
    ctx.shape('intersect shape', got, (3, k))
    ok = judge(ctx, 'intersection', got, paths, paths)
    if ok.all():
        ctx.eq('no warning', len(caught), 0, (paths, [str(w.message) for w in caught]))
        ctx.true('finite', np.isfinite(got))
    # order of the paths only decides the hemisphere; reversing a path changes the line not at all
    swapped = ctx.do('intersect', nv.intersect, (paths[2], paths[3]), (paths[0], paths[1]))
    judge(ctx, 'intersection swapped', swapped, [paths[i] for i in (2, 3, 0, 1)], paths)
    rev = ctx.do('intersect', nv.intersect, (paths[0], paths[1]), (paths[3], paths[2]))
    judge(ctx, 'intersection reversed', rev, [paths[i] for i in (0, 1, 3, 2)], paths)


def degenerate(ctx, rng, idx):
    """a path with itself, reversed or of zero length, among ordinary ones"""
    nv = ctx.nv
    k = gen.ncols(rng)
    paths = crossing(rng, k)
    bad = rng.integers(k)
    a1, a2, b1, b2 = [np.array(x) for x in paths]
    m = rng.integers(5)
    if m == 0:
        b1[:, bad], b2[:, bad] = a1[:, bad], a2[:, bad]
    elif m == 1:
        b1[:, bad], b2[:, bad] = a2[:, bad], a1[:, bad]
    elif m == 2:
        b2[:, bad] = b1[:, bad]
    elif m == 3:
        a2[:, bad] = a1[:, bad]
    else:
        a2[:, bad], b2[:, bad] = a1[:, bad], b1[:, bad]
    got, caught = ctx.warned('intersect', nv.intersect, (a1, a2), (b1, b2))
    ctx.shape('intersect shape', got, (3, k))
    ctx.true('NaN for identical circles', np.isnan(got[:, bad]), (a1, a2, b1, b2, bad))
    ctx.true('warns for identical circles', len(caught) >= 1, (a1, a2, b1, b2))
    rest = np.arange(k) != bad
    if rest.any():
        sub = [np.ascontiguousarray(x[:, rest]) for x in (a1, a2, b1, b2)]
        judge(ctx, 'other columns', got[:, rest], sub, sub)
    ctx.tag('degenerate kind {}'.format(m))


def objects(ctx, rng, idx):
    nv = ctx.nv
    fr, a, f, R, ax = frame(ctx, rng)
    k = gen.ncols(rng)
    scalar = k == 1 and bool(rng.integers(2))
    paths = crossing(rng, k)
    z = [gen.depth(rng, k, a, deep=False) for _ in range(4)]
    kinds = [KINDS[i] for i in rng.integers(3, size=4)]
    P = [make_point(ctx, kinds[i], fr, paths[i], z[i], R, a, f, scalar) for i in range(4)]
    p1, p2 = ctx.do('GeoPath', nv.GeoPath, P[0], P[1]), ctx.do('GeoPath', nv.GeoPath, P[2], P[3])
    vecs = [ctx.do('to_nvector', p.to_nvector) for p in P]
    n = [np.array(v.normal) for v in vecs]
    C, caught = ctx.warned('GeoPath.intersect', p1.intersect, p2)
    ctx.shape('GeoPath shape', C.normal, (3, k))
    ok = judge(ctx, 'GeoPath intersection', C.normal, n, (n, kinds))
    if ok.all():
        ctx.eq('no warning', len(caught), 0)
    mean = sum(ref.ld(np.atleast_1d(v.z)) for v in vecs) / 4
    ctx.close('mean depth', np.atleast_1d(C.z), mean, 16 * EPS * sum(np.abs(x) for x in z) + 64 * EPS * a, (z, kinds))
    ctx.eq('depth scalar', np.ndim(C.z) == 0, scalar)
    ctx.true('Nvector in the frame', isinstance(C, nv.Nvector) and C.frame == fr)
    same, caught = ctx.warned('GeoPath.intersect', p1.intersect, p1)
    ctx.true('path with itself', np.isnan(same.normal) & (len(caught) >= 1))
    ctx.tag('scalar' if scalar else 'vector')


WORKLOADS = [('functional', functional, 4000, 150000), ('degenerate', degenerate, 3000, 80000),
             ('objects', objects, 2500, 60000)]
REQUIRE = ['intersection', 'intersection on path a', 'intersection on path b', 'intersection in the hemisphere of A1',
           'NaN for identical circles', 'warns for identical circles', 'other columns', 'GeoPath intersection',
           'mean depth', 'no warning', 'path with itself']
