"""C18: vectorized calls equal column-by-column calls"""
import numpy as np

from rtm import catalog, gen, ref
from rtm.props.common import PI, to_double

TECHNIQUE = ('differential monitor: every operation of the catalogue on n columns against the same operation on each '
             'column alone, as scalars, broadcast, and with one column poisoned')
TOL = 2e-12
OPS = [o for o in catalog.OPS if o.columns and o.vector]


def environment(ctx, rng, o, **kw):
    a, f = gen.ellipsoid(rng)
    if o.oo:
        kw['axes'] = ('e', 'E')[rng.integers(2)]
        kinds = {p: ('geo', 'nvec', 'ecef')[rng.integers(3)] for p in o.points}
        if o.name.startswith('displace'):
            kinds['A'] = 'geo'
        kw['kinds'] = kinds
    else:
        kw['R'] = gen.R_Ee(rng)[0]
    return catalog.Env(ctx, a=a, f=f, degrees=bool(rng.integers(2)), **kw)


def sister(env, **kw):
    out = catalog.Env.__new__(catalog.Env)
    out.__dict__.update(env.__dict__)
    out.__dict__.update(kw)
    return out


def setup(ctx, rng, idx, ops):
    o = ops[idx % len(ops)]
    env = environment(ctx, rng, o)
    k = int(rng.integers(2, 8)) if rng.integers(4) else int(rng.choice([2, 3, 4]))
    return o, env, k, catalog.inputs(rng, o, k, env.a)


def columns(ctx, rng, idx):
    o, env, k, x = setup(ctx, rng, idx, OPS)
    got, raw = o.run(env, x)
    for name, t in o.outputs.items():
        ctx.eq('as many columns as positions', got[name].shape[-1], k, (o.name, name, raw))
    i = int(rng.integers(k))
    one, _raw = o.run(env, catalog.pick(x, [i]))
    catalog.compare(ctx, 'column', o, {n: v[..., [i]] for n, v in got.items()}, one, TOL, env.a, (i, x, env.kinds))
    j = rng.permutation(k)[:max(1, k - 1)]
    some, _raw = o.run(env, catalog.pick(x, j))
    catalog.compare(ctx, 'subset', o, {n: v[..., j] for n, v in got.items()}, some, TOL, env.a, (j, x, env.kinds))
    ctx.tag(o.name)


SCALARS = ('len', 'ang', 'lat', 'lon', 'num', 'bool')


def scalars(ctx, rng, idx):
    """scalar input: same values, as scalars; vector input of one element: vectors"""
    ops = [o for o in catalog.OPS if o.columns and o.oo]
    o = ops[idx % len(ops)]
    env = environment(ctx, rng, o)
    x = catalog.inputs(rng, o, 1, env.a)
    s, s_raw = o.run(sister(env, scalar=True), x)
    for name, t in o.outputs.items():
        if t in SCALARS:
            ctx.eq('scalar input gives scalar output', np.ndim(s_raw[name]), 0, (o.name, name, s_raw, env.kinds))
    if not o.vector:
        return
    v, v_raw = o.run(env, x)
    catalog.compare(ctx, 'scalar', o, s, v, TOL, env.a, (x, env.kinds))
    for name, t in o.outputs.items():
        if t in SCALARS and o.name != 'Pvector.to_ecef_vector':     # a Pvector has no vector flag here
            ctx.eq('vector input gives vector output', np.ndim(v_raw[name]), 1, (o.name, name, v_raw, env.kinds))
    ctx.tag(o.name)


def functional_scalars(ctx, rng, idx):
    """numbers instead of one-element vectors"""
    ops = [o for o in OPS if not o.oo]
    o = ops[idx % len(ops)]
    env = environment(ctx, rng, o)
    x = catalog.inputs(rng, o, 1, env.a)
    s, _raw = o.run(sister(env, scalar=True), x)
    v, _raw = o.run(env, x)
    catalog.compare(ctx, 'scalar arguments', o, s, v, TOL, env.a, x)


def broadcast(ctx, rng, idx):
    """single positions, depths, angles, radii and distances against many of the others"""
    ops = [o for o in OPS if o.bcast]
    o = ops[idx % len(ops)]
    env = environment(ctx, rng, o)
    k = int(rng.integers(2, 6))
    x = catalog.inputs(rng, o, k, env.a)
    groups = [g for g in o.bcast if rng.integers(2)]
    if len(groups) == len(o.bcast):
        groups = groups[:-1]
    if not groups:
        groups = [o.bcast[rng.integers(len(o.bcast))]]
    many = dict(x)
    one = dict(x)
    for g in groups:
        for name in (g,) if g in x else g:
            first = np.ascontiguousarray(x[name][..., :1])
            many[name] = np.repeat(first, k, axis=-1)
            one[name] = first
    got, _raw = o.run(sister(env, one_scalar=True), scalarize(rng, o, one))
    want, _raw = o.run(env, many)
    safe = [n for n in o.outputs]
    for n in safe:      # results which do not depend on the other arguments may keep one column
        if got[n].shape[-1] == 1:
            got[n] = np.repeat(got[n], k, axis=-1)
    catalog.compare(ctx, 'broadcast', o, got, want, TOL, env.a, (groups, x, env.kinds))
    ctx.tag('{}: {}'.format(o.name, '+'.join(groups)))


def scalarize(rng, o, x):
    """single numbers as python floats or one-element arrays"""
    in_points = set(','.join(o.points.values()).split(','))
    out = {}
    for k, v in x.items():
        if v.shape == (1,) and k not in in_points and rng.integers(2):
            v = np.array(float(v[0]))
        out[k] = v
    return out


def GEODESIC(name):
    return 'ellipsoid' in name or name.startswith('FrameE')


KINDS = 6


def special(rng, o, x, j, a, what):
    """makes column j degenerate"""
    x = {k: np.array(v) for k, v in x.items()}
    if what == 3 and GEODESIC(o.name):    # an ellipsoid of unknown size is refused
        what = 0
    for name, t in o.inputs.items():
        col = x[name][..., j]
        if t == 'n':
            if what == 0:
                col = np.array([rng.choice([-1., 1]), 0, 0])
            elif what == 1:
                col = np.array(x['n'][:, j])
            elif what == 2:
                col = np.array(x['n'][:, j]) * (-1 if name in 'mq' else 1)
            elif what == 3:
                col = np.full(3, np.nan)
            elif what == 4:
                col = gen.AXES6[:, rng.integers(6)]
            else:
                col = gen.nvec(rng, 1)[:, 0]
        elif t == 'len' and name != 'r':
            col = rng.choice([0., -1e-3, 0.2, -1e3]) * a
            if what == 3:
                col = np.nan
        elif t in ('ang', 'num', 'lat', 'lon'):
            col = rng.choice([0., PI / 2, -PI / 2, np.nan if what == 3 else PI])
        elif t == 'lv':
            col = np.zeros(3) if what != 3 else np.full(3, np.nan)
        x[name][..., j] = col
    return x


def poison(ctx, rng, idx):
    o, env, k, x = setup(ctx, rng, idx, OPS)
    want, _raw = o.run(env, x)
    count = 1 if rng.integers(2) else int(rng.integers(1, k))
    j = sorted(rng.permutation(k)[:count].tolist())     # several columns, mostly special in the same way
    what = int(rng.integers(KINDS))
    y = x
    for i in j:
        y = special(rng, o, y, i, env.a, what if rng.integers(4) else int(rng.integers(KINDS)))
    got, _raw = o.run(env, y)
    rest = [i for i in range(k) if i not in j]
    catalog.compare(ctx, 'neighbour of a special column', o, {n: v[..., rest] for n, v in got.items()},
                    {n: v[..., rest] for n, v in want.items()}, TOL, env.a, (what, j, x, y, env.kinds))
    ctx.tag('special kind {}'.format(what))
    ctx.tag('special columns', len(j))


def alone(ctx, rng, idx):
    """special columns, any number of them, give what each gives alone: exact cases only"""
    nv = ctx.nv
    k = int(rng.integers(2, 9))
    n = gen.nvec(rng, k)
    many = rng.random(k) < 0.5
    which = idx % 6
    if which == 0:      # zero vectors
        n = np.where(many, 0, n * 10 ** rng.uniform(-3, 3, k))
        fill = rng.choice([1, 1, 0, 2.5, np.nan])

        def fn(v):
            return ctx.do('unit', nv.unit, v, **({} if fill == 1 else dict(norm_zero_vector=fill)))
    else:
        R, kind = gen.R_Ee(rng)
        R = ref.R_DEFAULT if R is None else R
        if kind == 'random':
            R = gen.PERM24[rng.integers(24)].copy()
        pole = R.T @ np.array([[1.], [0], [0]]) * gen.sign(rng, k)
        v = np.where(many, pole, n)
        if which == 1:
            def fn(v):
                return ctx.do('n_E2R_EN', nv.n_E2R_EN, v, R_Ee=R).reshape(3, 3, -1)
        elif which == 2:
            def fn(v):
                return ctx.do('n_E_and_wa2R_EL', nv.n_E_and_wa2R_EL, v, 0.5, R_Ee=R).reshape(3, 3, -1)
        elif which == 3:
            def fn(v):
                return np.vstack(ctx.do('n_E2lat_lon', nv.n_E2lat_lon, v, R_Ee=R))
        elif which == 4:
            m = gen.AXES6[:, [1]]

            def fn(v):
                return ctx.do('n_EA_E_and_n_EB_E2azimuth', nv.n_EA_E_and_n_EB_E2azimuth, v, m, R_Ee=R)
        else:
            z = gen.depth(rng, 1, deep=False)[0]

            def fn(v):
                return ctx.do('n_EB_E2p_EB_E', nv.n_EB_E2p_EB_E, v, z, R_Ee=R) / 6378137.0
        n = v
    got = fn(n)
    ctx.eq('as many columns as positions', got.shape[-1], k, (which, n))
    for i in range(k):
        one = fn(np.ascontiguousarray(n[:, [i]]))
        if which in (3, 4):
            ctx.close_ang('special column as it is alone', got[..., [i]], one, TOL, (i, n))
        else:
            c = ref.cos_lat(ref.unit(n[:, [i]]), R)[0] if which in (1, 2) else 1.
            if which in (1, 2) and 0 < c < 1e-3:
                continue
            ctx.close('special column as it is alone', got[..., [i]], one, TOL * (1 + np.abs(one)), (i, n))


SLOW = ('FrameE.', 'ellipsoid')
COUNTS = (12, 16, 17, 31, 32, 33, 50, 63, 64, 65, 100, 101, 127, 128, 129, 200, 255, 256, 257, 500, 512, 513, 1000, 1001,
          1024, 1025, 2048, 2049, 4096, 4097, 5000, 8193, 10001, 16385)


def wide(ctx, rng, idx):
    """many columns give what their parts give"""
    ops = [o for o in OPS if o.vector and o.columns]
    o = ops[idx % len(ops)]
    env = environment(ctx, rng, o)
    slow = any(w in o.name for w in SLOW)
    counts = [c for c in COUNTS if c <= (300 if slow else 20000)]
    k = int(counts[rng.integers(len(counts))]) if slow or rng.integers(60) else 65537
    x = catalog.inputs(rng, o, k, env.a)
    got, raw = o.run(env, x)
    for name, t in o.outputs.items():
        ctx.eq('as many columns as positions', got[name].shape[-1], k, (o.name, name, k))
    cut = int(rng.integers(1, k))
    if rng.integers(2):
        parts = [np.arange(cut), np.arange(cut, k)]
    else:
        order = rng.permutation(k)
        parts = [order[:cut], order[cut:]]
    # ends, neighbours of powers of two, and some others alone
    few = {0, k - 1, k - 2, int(rng.integers(k))} | {2 ** i for i in range(4, 17) if 2 ** i < k}
    parts += [np.array([i]) for i in rng.permutation(sorted(few))[:3]]
    for part in parts:
        some, _raw = o.run(env, catalog.pick(x, part))
        catalog.compare(ctx, 'part of many', o, {n: v[..., part] for n, v in got.items()}, some, TOL, env.a, (k, cut))
    ctx.tag('{} columns'.format('> 1000' if k > 1000 else '> 100' if k > 100 else '<= 100'))


WORKLOADS = [('columns', columns, 3000, 60000), ('scalars', scalars, 1500, 30000),
             ('functional_scalars', functional_scalars, 800, 20000), ('broadcast', broadcast, 2000, 40000),
             ('poison', poison, 2500, 60000), ('alone', alone, 900, 20000), ('wide', wide, 420, 12000)]
REQUIRE = ['scalar input gives scalar output', 'vector input gives vector output', 'as many columns as positions',
           'special column as it is alone'] + [
    'column: ' + o.name for o in OPS] + ['part of many: ' + o.name for o in OPS if o.vector and o.columns] + ['neighbour of a special column: ' + o.name for o in OPS]
