"""C03: delta vectors and position + delta"""
import numpy as np

from rtm import gen, ref
from rtm.props.c02 import depth, ell, outside_core
from rtm.props.common import EPS, KINDS, R_of, frame, kw_R, make_point

TECHNIQUE = ('extended-precision ellipsoid model plus algebraic monitors (antisymmetry, chains, inverses) '
             'over pairs and triples of positions')


def functional(ctx, rng, idx):
    nv = ctx.nv
    R, kind = gen.R_Ee(rng)
    a, f, kw = ell(rng)
    kw.update(kw_R(R))
    k = gen.ncols(rng)
    nA = gen.nvec(rng, k)
    nB = gen.partner(rng, nA)
    zA, zB = depth(rng, nA, a, f, R_of(R)), depth(rng, nB, a, f, R_of(R))
    mode = rng.integers(4)
    if mode == 0:
        zA, zB, args = np.zeros(k), np.zeros(k), ()
    elif mode == 1:
        zB = np.zeros(k)
        args = (zA,)
    else:
        if mode == 2 and rng.integers(2):       # one depth for both
            zA = zB = np.minimum(zA, zB)
            ctx.tag('one depth for both')
        args = (zA, zB)
    pA, pB = ref.n2p(nA, zA, a, f, R_of(R)), ref.n2p(nB, zB, a, f, R_of(R))
    scale = a + np.abs(zA) + np.abs(zB)
    if kw.get('a') is not None and rng.integers(2) and len(args) == 2:
        got = ctx.do('n_EA_E_and_n_EB_E2p_AB_E', nv.n_EA_E_and_n_EB_E2p_AB_E, nA, nB, zA, zB, a, f,
                     **kw_R(R))
    elif len(args) == 2 and rng.integers(2):
        got = ctx.do('n_EA_E_and_n_EB_E2p_AB_E', nv.n_EA_E_and_n_EB_E2p_AB_E, nA, nB, z_EA=zA, z_EB=zB, **kw)
    else:
        got = ctx.do('n_EA_E_and_n_EB_E2p_AB_E', nv.n_EA_E_and_n_EB_E2p_AB_E, nA, nB, *args, **kw)
    ctx.close('delta vector', got, pB - pA, 32 * EPS * scale, (nA, nB, zA, zB, a, f))
    nb, zb = ctx.do('n_EA_E_and_p_AB_E2n_EB_E', nv.n_EA_E_and_p_AB_E2n_EB_E, nA, got, zA, **kw)
    ctx.shape('shape of B', nb, (3, k))
    ctx.close('A + delta(A, B) = B', ref.n2p(nb, zb, a, f, R_of(R)), pB, 64 * EPS * scale, (nA, nB, zA, zB, a, f))
    back = ctx.do('n_EA_E_and_n_EB_E2p_AB_E', nv.n_EA_E_and_n_EB_E2p_AB_E, nB, nA, zB, zA, **kw)
    ctx.close('antisymmetric', back, -ref.ld(got), 32 * EPS * scale)
    # any vector from A
    d = gen.nvec(rng, k) * gen._pick(rng, k, [lambda m: a * 10 ** rng.uniform(-12, 2, m),
                                            lambda m: a * rng.uniform(0, 2, m), np.zeros])
    ok = outside_core(pA + ref.ld(d), a, f, R_of(R))
    d = np.where(ok, d, 0.0)
    kws = dict(kw)
    if rng.integers(2):
        nb, zb = ctx.do('n_EA_E_and_p_AB_E2n_EB_E', nv.n_EA_E_and_p_AB_E2n_EB_E, nA, d, z_EA=zA, **kws)
    else:
        nb, zb = ctx.do('n_EA_E_and_p_AB_E2n_EB_E', nv.n_EA_E_and_p_AB_E2n_EB_E, nA, d, zA, **kws)
    ctx.close('A + delta', ref.n2p(nb, zb, a, f, R_of(R)), pA + ref.ld(d),
              64 * EPS * (scale + ref.norm(d)), (nA, zA, d, a, f))
    ctx.tag('axes ' + kind)
    ctx.tag('different depths', (zA != zB).sum())


def objects(ctx, rng, idx):
    nv = ctx.nv
    fr, a, f, R, ax = frame(ctx, rng)
    k = gen.ncols(rng)
    n = [gen.nvec(rng, k)]
    n += [gen.partner(rng, n[0]), gen.nvec(rng, k)]
    z = [depth(rng, x, a, f, R) for x in n]
    scalar = k == 1 and bool(rng.integers(2))
    kinds = [KINDS[i] for i in rng.integers(3, size=3)]
    A, B, C = [make_point(ctx, kinds[i], fr, n[i], z[i], R, a, f, scalar) for i in range(3)]
    p = [ref.n2p(n[i], z[i], a, f, R) for i in range(3)]
    tol = 64 * EPS * (a + sum(np.abs(x) for x in z))
    info = (n, z, a, f, ax, kinds)
    dAB = ctx.do('delta_E', nv.delta_E, A, B)
    dBC = ctx.do('delta_E', nv.delta_E, B, C)
    dAC = ctx.do('delta_E', nv.delta_E, A, C)
    dBA = ctx.do('delta_E', nv.delta_E, B, A)
    ctx.true('delta is an ECEF vector in the frame', all(isinstance(d, nv.ECEFvector) and d.frame == fr
                                                        for d in (dAB, dBC, dAC, dBA)))
    ctx.close('delta_E', dAB.pvector, p[1] - p[0], tol, info)
    ctx.close('antisymmetric', dBA.pvector, -ref.ld(dAB.pvector), tol, info)
    chain = ctx.do('ECEFvector +', lambda: dAB + dBC)
    ctx.close('chain', chain.pvector, dAC.pvector, tol, info)
    EA = ctx.do('to_ecef_vector', A.to_ecef_vector)
    EB = ctx.do('ECEFvector +', lambda: EA + dAB)
    ctx.close('A + delta(A, B)', EB.pvector, p[1], tol, info)
    nb = ctx.do('to_nvector', EB.to_nvector)
    ctx.close('A + delta(A, B) as n-vector', ref.n2p(nb.normal, np.atleast_1d(nb.z), a, f, R), p[1], 2 * tol, info)
    gb = ctx.do('to_geo_point', EB.to_geo_point)
    ctx.close('A + delta(A, B) as geo point',
              ref.n2p(ref.latlon2n(np.atleast_1d(gb.latitude), np.atleast_1d(gb.longitude), R),
                      np.atleast_1d(gb.z), a, f, R), p[1], 2 * tol, info)
    diff = ctx.do('ECEFvector -', lambda: EB - EA)
    ctx.close('subtraction', diff.pvector, ref.ld(EB.pvector) - ref.ld(EA.pvector), 4 * EPS * tol / EPS / 64, info)
    neg = ctx.do('-ECEFvector', lambda: -dAB)
    ctx.close('negation', neg.pvector, -ref.ld(dAB.pvector), 0 * tol, info)
    for x in (chain, EB, diff, neg):
        ctx.true('frame kept', x.frame == fr)
        ctx.eq('scalar flag', bool(x.scalar), scalar, (k, kinds))
    length = ctx.do('length', lambda: dAB.length)
    ctx.eq('scalar length', np.ndim(length) == 0, scalar)
    ctx.close('length', np.atleast_1d(length), ref.norm(p[1] - p[0]), 2 * tol, info)
    ctx.tag('kinds ' + '-'.join(kinds[:2]))
    ctx.tag('scalar' if scalar else 'vector')


def broadcast(ctx, rng, idx):
    """one position against many"""
    nv = ctx.nv
    fr, a, f, R, ax = frame(ctx, rng)
    k = 2 + gen.ncols(rng)
    n1, nk = gen.nvec(rng, 1), gen.nvec(rng, k)
    z1, zk = depth(rng, n1, a, f, R), depth(rng, nk, a, f, R)
    kinds = [KINDS[i] for i in rng.integers(3, size=2)]
    A = make_point(ctx, kinds[0], fr, n1, z1, R, a, f, bool(rng.integers(2)))
    B = make_point(ctx, kinds[1], fr, nk, zk, R, a, f)
    p1, pk = ref.n2p(n1, z1, a, f, R), ref.n2p(nk, zk, a, f, R)
    tol = 64 * EPS * (a + np.abs(zk) + np.abs(z1))
    d = ctx.do('delta_E', nv.delta_E, A, B)
    ctx.close('one to many', d.pvector, pk - p1, tol)
    e = ctx.do('delta_E', nv.delta_E, B, A)
    ctx.close('many to one', e.pvector, p1 - pk, tol)
    ctx.true('vector flag', not d.scalar and not e.scalar)
    ctx.eq('vector length', np.shape(ctx.do('length', lambda: d.length)), (k,))
    got = ctx.do('n_EA_E_and_n_EB_E2p_AB_E', nv.n_EA_E_and_n_EB_E2p_AB_E, n1, nk, z1, zk, a, f, R)
    ctx.close('one to many, functional', got, pk - p1, tol)


def nvector_arithmetic(ctx, rng, idx):
    nv = ctx.nv
    fr, a, f, R, ax = frame(ctx, rng)
    k = gen.ncols(rng)
    x, y = gen.nvec(rng, k), gen.nvec(rng, k)
    zx, zy = gen.depth(rng, k), gen.depth(rng, k)
    scalar = k == 1 and bool(rng.integers(2))
    X = make_point(ctx, 'nvec', fr, x, zx, R, a, f, scalar)
    Y = make_point(ctx, 'nvec', fr, y, zy, R, a, f, scalar)
    s = float(rng.choice([2.0, 0.5, -1.5, 3, rng.normal()]))
    if rng.integers(3) == 0:
        s = rng.normal(size=k) if not scalar else s
    cases = [('+', lambda: X + Y, ref.ld(x) + y, ref.ld(zx) + zy),
             ('-', lambda: X - Y, ref.ld(x) - y, ref.ld(zx) - zy),
             ('neg', lambda: -X, -ref.ld(x), -ref.ld(zx)),
             ('scale', lambda: X * s, ref.ld(x) * s, ref.ld(zx) * s),
             ('divide', lambda: X / s, ref.ld(x) / s, ref.ld(zx) / s)]
    if np.ndim(s) == 0:
        cases.append(('scale from the left', lambda: s * X, ref.ld(x) * s, ref.ld(zx) * s))
    for name, fun, normal, z in cases:
        got = ctx.do('Nvector ' + name, fun)
        ctx.close('Nvector ' + name, got.normal, normal, 4 * EPS * (1 + np.abs(normal)))
        ctx.close('Nvector depth ' + name, np.atleast_1d(got.z), z, 4 * EPS * (np.abs(z) + np.abs(zx) + np.abs(zy)))
        ctx.true('Nvector frame', isinstance(got, nv.Nvector) and got.frame == fr)
        ctx.eq('Nvector scalar depth', np.ndim(got.z) == 0, scalar and np.ndim(s) == 0)
    ctx.raises('product of n-vectors', NotImplementedError, lambda: X * Y)
    ctx.raises('quotient of n-vectors', NotImplementedError, lambda: X / Y)


WORKLOADS = [('functional', functional, 5000, 150000), ('objects', objects, 2500, 60000),
             ('broadcast', broadcast, 1500, 40000), ('nvector_arithmetic', nvector_arithmetic, 1500, 40000)]
REQUIRE = ['delta vector', 'A + delta(A, B) = B', 'antisymmetric', 'A + delta', 'delta_E', 'chain',
           'A + delta(A, B)', 'subtraction', 'negation', 'frame kept', 'one to many', 'many to one',
           'Nvector +', 'Nvector -', 'Nvector neg', 'Nvector scale', 'Nvector divide']
