"""C17: interpolation and smoothing of position series"""
import numpy as np
from scipy.interpolate import make_interp_spline

from rtm import gen, ref
from rtm.props.common import EPS, PI, frame

TECHNIQUE = ('node, range and unit-length monitors plus independent interpolation (own linear/step, B-spline '
             'collocation) and independent Savitzky-Golay smoothing (local least squares in extended precision)')
TRUSTS = ' and scipy.interpolate.make_interp_spline'
KINDS = ['linear', 'nearest', 'zero', 'slinear', 'quadratic', 'cubic', 'previous', 'next', 1, 2, 3]
MODES = ['interp', 'mirror', 'constant', 'nearest', 'wrap']


def series(rng, n):
    """a track (smooth or jumpy), over poles and the antimeridian too"""
    if rng.integers(3) == 0:
        v = gen.nvec(rng, n)
    else:
        start = gen.nvec(rng, 1)
        tangent = gen.perp(rng, start)
        s = np.cumsum(rng.uniform(0, 1, n)) * 10 ** rng.uniform(-5, -1)
        v = start * np.cos(s) + tangent * np.sin(s)
        v = gen.normalize(v + rng.normal(size=v.shape) * 10 ** rng.uniform(-8, -2))
    return np.ascontiguousarray(v)


def times(rng, n):
    t = np.cumsum(rng.uniform(0.5, 1.5, n)) * 10 ** rng.uniform(-2, 3) + rng.choice([0, 0, 0, 100., -50., 1.7e9, -3e6])
    if rng.integers(2):
        t = np.arange(n).astype(float)
    elif rng.integers(2):
        t = np.cumsum(rng.integers(1, 4, n)) + rng.integers(-50, 50)      # whole numbers
    return t


def interp(kind, t, y, ti):
    """rows of y at ti; NaN outside (extended precision where it is elementary)"""
    order = np.argsort(t, kind='mergesort')
    t, y = t[order], ref.ld(y[:, order])
    out = np.full((y.shape[0], ti.size), np.nan, dtype=np.longdouble)
    inside = (ti >= t[0]) & (ti <= t[-1])
    for j in np.flatnonzero(inside):
        x = ti[j]
        lo = np.flatnonzero(t <= x).max()
        hi = np.flatnonzero(t >= x).min()
        if kind in ('zero', 'previous', 0):
            out[:, j] = y[:, lo]
        elif kind == 'next':
            out[:, j] = y[:, hi]
        elif kind == 'nearest':
            out[:, j] = y[:, lo] if x - t[lo] <= t[hi] - x else y[:, hi]
        elif kind in ('linear', 'slinear', 1):
            w = 0 if hi == lo else (ref.ld(x) - t[lo]) / (ref.ld(t[hi]) - t[lo])
            out[:, j] = y[:, lo] + w * (y[:, hi] - y[:, lo])
    if kind in ('quadratic', 'cubic', 2, 3) and inside.any():
        k = {'quadratic': 2, 'cubic': 3}.get(kind, kind)
        spline = make_interp_spline(t, y.astype(float), k=k, axis=1)
        out[:, inside] = spline(ti[inside])
    return out


def fit(x, y, order, at):
    """least-squares polynomial through (x, rows of y), evaluated at `at`"""
    m = (x.size - 1) / 2
    centre = x.mean()
    scale = max(1.0, m)
    V = ref.ld((x - centre) / scale)[:, None] ** np.arange(order + 1)
    # QR by modified Gram-Schmidt in extended precision
    Q = np.zeros_like(V)
    Rm = np.zeros((order + 1, order + 1), dtype=np.longdouble)
    for i in range(order + 1):
        v = V[:, i].copy()
        for _ in range(2):
            for j in range(i):
                r = (Q[:, j] * v).sum()
                Rm[j, i] += r
                v = v - r * Q[:, j]
        Rm[i, i] = np.sqrt((v * v).sum())
        Q[:, i] = v / Rm[i, i]
    c = (ref.ld(y)[:, :, None] * Q[None]).sum(axis=1)
    b = ref.ld((at - centre) / scale) ** np.arange(order + 1)
    w = np.zeros(order + 1, dtype=np.longdouble)      # solve R^T w = b
    for i in range(order + 1):
        w[i] = (b[i] - (Rm[:i, i] * w[:i]).sum()) / Rm[i, i]
    return (c * w).sum(axis=1)


def smooth(y, window, order, mode, cval):
    window = window + (window + 1) % 2
    n, h = y.shape[1], window // 2
    y = ref.ld(y)
    out = np.empty_like(y)
    x = np.arange(window).astype(float)
    if mode == 'interp':
        for i in range(n):
            lo = min(max(i - h, 0), n - window)
            out[:, i] = fit(x, y[:, lo:lo + window], order, float(i - lo))
        return out
    for i in range(n):
        cols = []
        for j in range(i - h, i + h + 1):
            if 0 <= j < n:
                cols.append(y[:, j])
            elif mode == 'constant':
                cols.append(np.full(y.shape[0], cval, dtype=np.longdouble))
            elif mode == 'nearest':
                cols.append(y[:, min(max(j, 0), n - 1)])
            elif mode == 'wrap':
                cols.append(y[:, j % n])
            else:
                m = 2 * (n - 1)
                q = j % m if m else 0
                cols.append(y[:, q if q < n else m - q])
        out[:, i] = fit(x, np.stack(cols, axis=1), order, float(h))
    return out


def query(rng, t, m):
    lo, hi = t.min(), t.max()
    span = hi - lo
    q = gen._pick(rng, m, [lambda k: rng.uniform(lo, hi, k), lambda k: rng.uniform(lo, hi, k), lambda k: rng.choice(t, k),
                           lambda k: np.where(rng.random(k) < .5, lo - span * rng.uniform(1e-6, 1, k),
                                              hi + span * rng.uniform(1e-6, 1, k)),
                           lambda k: np.where(rng.random(k) < .5, np.minimum(np.nextafter(lo, -np.inf), lo - span * 10 ** rng.uniform(-17, -3, k)),
                                              np.maximum(np.nextafter(hi, np.inf), hi + span * 10 ** rng.uniform(-17, -3, k))),
                           lambda k: rng.choice([lo, hi], k)])
    return q


def away_from_ties(t, q):
    s = np.sort(t)
    mid = (s[1:] + s[:-1]) / 2
    if not mid.size:
        return np.ones(q.shape, bool)
    return np.abs(q[:, None] - mid[None]).min(axis=1) > 1e-9 * (s[-1] - s[0])


def options(ctx, rng, n):
    least = {'quadratic': 3, 'cubic': 4, 2: 3, 3: 4}
    kinds = [kind for kind in KINDS if least.get(kind, 2) <= n]
    kind = kinds[rng.integers(len(kinds))]
    kw = {}
    window = 0
    if rng.integers(2) and n >= 3:
        window = int(rng.integers(1, n + 1))
        if window + (window + 1) % 2 > n:
            window -= 1
    if kind != 'linear' or rng.integers(2):
        kw['kind'] = kind
    mode, cval, order = 'interp', 0.0, 2
    if window:
        odd = window + (window + 1) % 2
        kw['window_length'] = window
        order = int(rng.integers(0, min(5, odd)))
        if order != 2 or rng.integers(2):
            kw['polyorder'] = order
        mode = MODES[rng.integers(5)]
        if mode != 'interp' or rng.integers(2):
            kw['mode'] = mode
        if mode == 'constant' and rng.integers(2):
            cval = float(rng.normal())
            kw['cval'] = cval
        ctx.tag('smoothing mode ' + mode)
        ctx.tag('window even' if window % 2 == 0 else 'window odd')
    ctx.tag('kind {}'.format(kind))
    ctx.tag('{} of {}'.format(kind, min(n, 5)))
    return kind, window, order, mode, cval, kw


def functional(ctx, rng, idx):
    nv = ctx.nv
    n = int(rng.choice([2, 3, 4, 5, 6, 7, 9, 15, 30, 4, 5, 6, 7, 9, 15, 30, 70]))
    y, t = series(rng, n), times(rng, n)
    kind, window, order, mode, cval, kw = options(ctx, rng, n)
    if not window and rng.integers(4) == 0:
        p = rng.permutation(n)
        t, y = t[p], np.ascontiguousarray(y[:, p])
        ctx.tag('unsorted times')
    q = query(rng, t, int(rng.choice([1, 4, 11])))
    if kind == 'nearest':
        q = np.where(away_from_ties(t, q), q, t.min())
    arg = float(q[0]) if q.size == 1 and rng.integers(2) else q
    ctx.tag('times ' + t.dtype.kind)
    got = ctx.do('interp_nvectors', nv.interp_nvectors, arg, t, gen.layout(rng, y), **kw)
    judge(ctx, 'series', got, None, y, None, t, q, kind, window, order, mode, cval)
    if not window:
        nodes = ctx.do('interp_nvectors', nv.interp_nvectors, t, t, y, **kw)
        ctx.close('nodes', nodes, y, 1e-12, (t, y, kw))


def judge(ctx, name, got, got_z, y, z, t, q, kind, window, order, mode, cval):
    data = y if z is None else np.vstack((y, z))
    info = (kind, window, order, mode, cval, t, q, data)
    if window:
        data = smooth(data, window, order, mode, cval)
    want = interp(kind, t, np.asarray(data), q)
    out = (q < t.min()) | (q > t.max())
    ctx.shape(name + ' shape', got, (3, q.size))
    spline = kind in ('quadratic', 'cubic', 2, 3)
    rel = 1e-11 if spline else (2e-12 if window else 32 * EPS)
    size = ref.norm(want[:3])
    big = np.abs(data[:3]).max() * (10 if spline else 1) + (abs(cval) if mode == 'constant' else 0)
    tol = rel * big * 4 / np.where(out, 1, np.maximum(size, 1e-30))
    # linear interpolation over a far origin: the fraction is only as good as the times
    tol = tol + 64 * EPS * big * (np.abs(t).max() / np.abs(np.diff(np.sort(t))).min()) / np.where(out, 1, np.maximum(size, 1e-30))
    ok = (tol < 1e-3) | out
    with np.errstate(all='ignore'):
        unit = ref.unit(want[:3])
    ctx.close(name + ' position', np.where(ok, got, 0), np.where(ok, unit, 0), tol, info)
    # (smoothed vectors may cancel: no direction)
    ctx.true(name + ' NaN outside', (np.isnan(got) == out[None, :]) | ~ok, info)
    ins = ~out & ok
    ctx.close(name + ' unit length', ref.norm(got[:, ins]), np.ones(ins.sum()), 8 * EPS)
    ctx.tag('outside', out.sum())
    ctx.tag('inside', (~out).sum())
    if z is not None:
        big = np.abs(data[3]).max() * (10 if spline else 1) + np.abs(z).max() + (abs(cval) if mode == 'constant' else 0)
        tz = rel * 4 * big + 64 * EPS * big * (np.abs(t).max() / np.abs(np.diff(np.sort(t))).min())
        ctx.close(name + ' depth', np.asarray(got_z), want[3], tz, info)


def objects(ctx, rng, idx):
    nv = ctx.nv
    fr, a, f, R, ax = frame(ctx, rng)
    n = int(rng.choice([2, 3, 4, 5, 6, 7, 9, 15]))
    y, t = series(rng, n), times(rng, n)
    z = rng.normal(size=n) * a * 10 ** rng.uniform(-6, -2)
    zarg = z
    if rng.integers(5) == 0:
        zarg = float(z[0])
        z = np.full(n, z[0])
    V = ctx.do('Nvector', nv.Nvector, y, zarg, frame=fr)
    kind, window, order, mode, cval, kw = options(ctx, rng, n)
    q = query(rng, t, int(rng.choice([1, 4, 11])))
    if kind == 'nearest':
        q = np.where(away_from_ties(t, q), q, t.min())
    W = ctx.do('Nvector.interpolate', V.interpolate, q, t, **kw)
    ctx.true('frame kept', isinstance(W, nv.Nvector) and W.frame == fr)
    judge(ctx, 'Nvector', W.normal, W.z, y, z, t, q, kind, window, order, mode, cval)
    ctx.true('series untouched', (V.normal == y).all() and np.all(np.asarray(V.z) == z))


WORKLOADS = [('functional', functional, 3000, 80000), ('objects', objects, 2000, 50000)]
REQUIRE = ['nodes', 'series position', 'series NaN outside', 'series unit length', 'Nvector position', 'Nvector depth',
           'Nvector NaN outside']
