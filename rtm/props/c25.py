"""C25: numeric utilities"""
import numpy as np

from rtm import gen, ref
from rtm.props.common import EPS, PI

TECHNIQUE = ('contract monitors on the utilities: extended-precision references, matrix-by-matrix products, inverse '
             'functions, and closeness judged from hidden exact differences around the threshold')
L = np.longdouble


def unit(ctx, rng, idx):
    nv = ctx.nv
    k = gen.ncols(rng)
    rows = int(rng.choice([3, 3, 3, 2, 4]))
    d = rng.normal(size=(rows, k))
    if rng.integers(2):
        d = rng.integers(-3, 4, (rows, k)).astype(float)
    v = d * 10.0 ** rng.uniform(-149, 149, k)
    if rng.integers(3) == 0:
        v = d
    if rng.integers(5) == 0:
        v = np.round(v) if np.abs(v).max() < 1e9 else v
    zero = (v == 0).all(axis=0)
    if rng.integers(3) == 0:
        zero |= rng.integers(3, size=k) == 0
        v = np.where(zero, 0.0, v)
    as_list = bool(rng.integers(4) == 0)
    arg = v.tolist() if as_list else v.astype(int) if (v == np.round(v)).all() and np.abs(v).max() < 1e9 and rng.integers(
        2) else gen.layout(rng, v)
    how = rng.integers(4)
    value = (1, 1, np.nan, rng.choice([1.0, 2.0]))[how]
    u = ctx.do('unit', nv.unit, arg) if how == 0 else ctx.do('unit', nv.unit, arg, norm_zero_vector=value)
    want = np.zeros((rows, k), dtype=L)
    want[0] = 1
    want *= value
    keep = ~zero
    want[:, keep] = ref.unit(v[:, keep])
    ctx.close('unit', u, want, 8 * EPS, (v, value))
    with np.errstate(all='ignore'):
        ctx.close('unit length', ref.norm(u[:, keep]), np.ones(int(keep.sum())), 6 * EPS, v)
    if keep.any():
        w = ctx.do('unit', nv.unit, np.ascontiguousarray(u[:, keep]))
        ctx.close('idempotent', w, u[:, keep], 4 * EPS, v)
    ctx.tag('zero columns', int(zero.sum()))


def mdot(ctx, rng, idx):
    """stacks, and single matrices and vectors against stacks"""
    nv = ctx.nv
    n = int(rng.choice([1, 2, 3, 4, 7]))
    r, s, t = (int(x) for x in rng.integers(1, 5, 3)) if rng.integers(3) == 0 else (3, 3, int(rng.choice([1, 3])))
    A, B = rng.normal(size=(r, s, n)), rng.normal(size=(s, t, n))
    how = idx % 5
    if how == 1:
        A = A[..., :1]
    elif how == 2:
        B = B[..., :1]
    elif how == 3:
        A, B = A[..., :1], B[..., :1]
    m = max(A.shape[2], B.shape[2])
    want = np.stack([A[..., min(i, A.shape[2] - 1)].astype(L) @ B[..., min(i, B.shape[2] - 1)].astype(L)
                     for i in range(m)], axis=2)
    a, b = A, B
    if how == 1 and rng.integers(2):
        a = A[..., 0]
    if how == 2 and rng.integers(2) and B.shape[1] == 1:
        b = B[..., 0]
    if how == 3:
        a, b = A[..., 0], B[..., 0]
        want = want[..., 0]
    if a.ndim == 2 and b.ndim == 3 and how == 1:
        pass        # a plain matrix against a stack of matrices: a[:, :, None] is meant
    got = ctx.do('mdot', nv.mdot, gen.layout(rng, a), gen.layout(rng, b))
    ctx.close('mdot', got, want, 16 * EPS * s * 4, (a, b))
    ctx.tag('mdot {}x{}'.format(a.ndim, b.ndim))


def nthroot(ctx, rng, idx):
    k = gen.ncols(rng)
    n = int(rng.integers(1, 9) if rng.integers(4) else rng.integers(9, 60))
    x = 10.0 ** rng.uniform(-14, 14, k)
    x = np.where(rng.integers(4, size=k) == 0, 10.0 ** rng.uniform(-290, 0, k), x)
    m = rng.integers(5, size=k)
    x = np.where(m == 0, rng.integers(0, 50, k).astype(float) ** n, x)
    x = np.where(m == 1, 1 + gen.sign(rng, k) * gen.tiny(rng, k, 1, 16), x)
    x = np.where(m == 2, 0.0, x)
    if n * np.log10(50) > 14:
        x = np.where(m == 0, rng.integers(0, 9, k).astype(float), x)
    arg = float(x[0]) if k == 1 and rng.integers(2) else x.tolist() if rng.integers(4) == 0 else x
    y = ctx.do('nthroot', ctx.nv.nthroot, arg, n)
    with np.errstate(all='ignore'):
        want = np.where(x == 0, 0, np.exp(np.log(np.where(x == 0, 1, x).astype(L)) / n))
        rel = 4 * EPS
    ctx.close('nthroot', np.atleast_1d(y), want, rel * np.maximum(want, 0) + 1e-300, (x, n))
    ctx.close('nthroot raised to n', np.atleast_1d(y).astype(L) ** n, x, 2 * n * rel * x + 1e-300, (x, n))
    ctx.shape('nthroot shape', y, np.shape(arg))


def angles(ctx, rng, idx):
    nv = ctx.nv
    k = gen.ncols(rng)
    x = gen.angle(rng, k)
    if rng.integers(3) == 0:
        x = rng.uniform(-1, 1, k) * 10.0 ** rng.uniform(-200, 200, k)
    arg = float(x[0]) if k == 1 and rng.integers(2) else x.tolist() if rng.integers(3) == 0 else x
    pi = np.arctan2(L(0), L(-1))
    d = ctx.do('deg', nv.deg, arg)
    ctx.close('deg', d, np.asarray(arg, dtype=L) * 180 / pi, 3 * EPS * np.abs(np.asarray(arg)) * 60, x)
    r = ctx.do('rad', nv.rad, arg)
    ctx.close('rad', r, np.asarray(arg, dtype=L) * pi / 180, 3 * EPS * np.abs(np.asarray(arg)) / 50, x)
    ctx.close('rad(deg)', ctx.do('rad', nv.rad, d), arg, 4 * EPS * np.abs(np.asarray(arg)), x)
    ctx.close('deg(rad)', ctx.do('deg', nv.deg, r), arg, 4 * EPS * np.abs(np.asarray(arg)), x)
    # several at once
    many = [x, float(x[0]), [float(v) for v in x]][:int(rng.integers(2, 4))]
    for fn in (nv.deg, nv.rad):
        out = ctx.do('deg/rad', fn, *many)
        ctx.eq('a tuple for several angles', (type(out), len(out)), (tuple, len(many)))
        for o, m in zip(out, many):
            ctx.true('several angles like one', np.array_equal(o, fn(m)), (o, m))
    exact = ctx.do('deg', nv.deg, np.array([0., PI / 2, PI, -PI, 2 * PI]))
    ctx.true('right angles are exact', np.array_equal(exact, [0., 90, 180, -180, 360]), exact)


SPECIAL = np.array([np.nan, np.inf, -np.inf, 0.0, -0.0, 1.0, 1e308, -1e308, 5e-324])


def closeness(ctx, rng, idx):
    """differences hidden in the construction, next to and far from the threshold"""
    util = ctx.nv.util
    k = gen.ncols(rng)
    a = gen.sign(rng, k) * 10.0 ** rng.uniform(-12, 12, k)
    a = np.where(rng.integers(5, size=k) == 0, 0.0, a)
    rtol = float(rng.choice([0, 1e-9, 1e-12, 1e-6, 1e-3, 0.1, 1e-15]))
    atol = float(rng.choice([0, 0, 1e-14, 1e-8, 1e-3, 1.0, np.inf if rng.integers(4) == 0 else 10.0]))
    tol0 = np.maximum(atol if np.isfinite(atol) else 1.0, rtol * np.abs(a))
    factor = rng.choice([0, 0.5, 0.9, 0.99, 1 - 1e-6, 1 + 1e-6, 1.01, 1.1, 2, 1e3], k)
    b = a + gen.sign(rng, k) * factor * tol0
    m = rng.integers(6, size=k)
    b = np.where(m == 0, -a, b)
    b = np.where(m == 1, a, b)
    sp = rng.integers(5) == 0
    if sp:
        j = rng.integers(k)
        a = np.array(a)
        b = np.array(b)
        a[j], b[j] = SPECIAL[rng.integers(len(SPECIAL), size=2)]
    equal_nan = bool(rng.integers(2))
    with np.errstate(all='ignore'):
        diff = np.abs(a.astype(L) - b.astype(L))
        thr = np.maximum(L(atol), L(rtol) * np.maximum(np.abs(a), np.abs(b)))
        want = diff <= thr
        fin = np.isfinite(a) & np.isfinite(b)
        want = np.where(fin, want, np.where(np.isnan(a) | np.isnan(b), np.isnan(a) & np.isnan(b) & equal_nan, a == b))
        # the difference and the product are rounded: undecided within that
        clear = ~fin | (np.abs(diff - thr) > 4 * EPS * (np.abs(a) + np.abs(b) + np.where(np.isfinite(thr), thr, 0))) | (
            (diff == 0))
    for p, q in ((a, b), (b, a)):
        got = ctx.do('isclose', util.isclose, p, q, rtol=rtol, atol=atol, equal_nan=equal_nan)
        ctx.shape('isclose', got, (k,))
        ctx.true('isclose', (got == want)[clear], (p, q, rtol, atol, equal_nan, got, want))
    got = ctx.do('isclose', util.isclose, a, b, rtol=rtol, atol=atol, equal_nan=equal_nan)
    back = ctx.do('isclose', util.isclose, b, a, rtol=rtol, atol=atol, equal_nan=equal_nan)
    ctx.true('symmetric', got == back, (a, b, rtol, atol))
    for i in range(k):
        one = ctx.do('isclose', util.isclose, float(a[i]), float(b[i]), rtol=rtol, atol=atol, equal_nan=equal_nan)
        ctx.eq('elementwise', bool(one), bool(got[i]), (a[i], b[i], rtol, atol, equal_nan))
    every = ctx.do('allclose', util.allclose, a, b, rtol=rtol, atol=atol, equal_nan=equal_nan)
    ctx.eq('allclose', bool(every), bool(got.all()), (a, b, rtol, atol, equal_nan))
    j = rng.integers(k)
    col = a[:, None] if rng.integers(2) else a[::-1].copy()[:, None]
    grid = ctx.do('isclose', util.isclose, col, b[None, :], rtol=rtol, atol=atol, equal_nan=equal_nan)
    ctx.shape('broadcast closeness', grid, (k, k))
    if col[j, 0] == a[j] or a[j] != a[j]:
        pass
    for i in range(k):
        one = ctx.do('isclose', util.isclose, float(col[i, 0]), float(b[j]), rtol=rtol, atol=atol, equal_nan=equal_nan)
        ctx.eq('broadcast closeness', bool(grid[i, j]), bool(one), (col[i, 0], b[j], rtol, atol))


def defaults(ctx, rng, idx):
    """documented default tolerances"""
    util = ctx.nv.util
    a = gen.sign(rng, 1)[0] * 10.0 ** rng.uniform(-5, 9)
    for fn, rtol in ((util.isclose, 1e-9), (util.allclose, 1e-7)):
        for factor, want in ((0.9, True), (0.99, True), (1.02, False), (3.0, False)):
            ctx.eq('default rtol', bool(ctx.do('close', fn, a, a + factor * rtol * abs(a))), want, (a, factor))
    ctx.eq('default atol', bool(ctx.do('close', util.allclose, 0.0, 0.9e-14)), True)
    ctx.eq('default atol', bool(ctx.do('close', util.allclose, 0.0, 1.1e-14)), False)
    ctx.eq('default atol', bool(ctx.do('close', util.isclose, 0.0, 1e-300)), False)
    ctx.eq('default nan', bool(ctx.do('close', util.isclose, np.nan, np.nan)), False)
    ctx.eq('default nan', bool(ctx.do('close', util.allclose, [1, np.nan], [1, np.nan])), False)


WORKLOADS = [('unit', unit, 3000, 60000), ('mdot', mdot, 1500, 30000), ('nthroot', nthroot, 2000, 40000),
             ('angles', angles, 1500, 30000), ('closeness', closeness, 3000, 60000), ('defaults', defaults, 100, 1000)]
REQUIRE = ['unit', 'unit length', 'mdot', 'nthroot', 'nthroot raised to n', 'deg', 'rad', 'isclose', 'symmetric',
           'elementwise', 'allclose']
