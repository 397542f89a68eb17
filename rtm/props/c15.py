"""C15: mean horizontal position"""
import numpy as np

from rtm import gen, ref
from rtm.props.c02 import depth
from rtm.props.common import EPS, KINDS, PI, frame, make_point

TECHNIQUE = ('extended-precision vector sum, with permutation, rotation and splitting metamorphic monitors')


def cloud(rng):
    """positions that do not cancel: clusters, around poles and the antimeridian, global"""
    k = int(rng.choice([1, 2, 3, 4, 5, 10, 100, 1, 2, 3, 4, 5, 10, 100, 1000, 3000]))
    m = rng.integers(5)
    if m == 0:
        n = gen.nvec(rng, k)
    else:
        c = gen.nvec(rng, 1)
        if m == 1:
            c = np.array([[0.], [0], [1]]) if rng.integers(2) else np.array([[1.], [0], [0]])
        if m == 2:
            la = rng.uniform(-1.5, 1.5)
            c = np.array([[-np.cos(la)], [0], [np.sin(la)]])
        n = gen.near(rng, np.repeat(c, k, axis=1), rng.uniform(0, 1, k) * 10 ** rng.uniform(-8, 0.3))
    if rng.integers(8) == 0:        # two positions which nearly cancel
        n = gen.nvec(rng, 1)
        n = np.hstack((n, -gen.near(rng, n, np.array([10 ** rng.uniform(-12, -1)]))))
    elif rng.integers(4) == 0:
        n = np.repeat(n, 2, axis=1)
    return np.ascontiguousarray(n)


def functional(ctx, rng, idx):
    nv = ctx.nv
    n = cloud(rng)
    k = n.shape[1]
    total = ref.ld(n).sum(axis=1, keepdims=True)
    size = float(ref.norm(total)[0])
    if size < (1e-6 * k if k > 2 else 1e-14):
        ctx.tag('cancelling')
        return
    cond = k / size
    # the sum of two numbers is rounded once, however much they cancel
    tol = 8 * EPS * (1 if k < 3 else cond * (1 + 0.05 * k))
    got = ctx.do('mean_horizontal_position', nv.mean_horizontal_position, gen.layout(rng, n))
    ctx.shape('shape', got, (3, 1))
    ctx.close('mean', got, ref.unit(total), tol, n)
    ctx.close('unit length', ref.norm(got), np.ones(1), 8 * EPS)
    perm = ctx.do('mean_horizontal_position', nv.mean_horizontal_position, np.ascontiguousarray(n[:, rng.permutation(k)]))
    ctx.close('order', perm, got, tol, n)
    Q = gen.rotation(rng) if rng.integers(2) else gen.PERM24[rng.integers(24)]
    turned = ctx.do('mean_horizontal_position', nv.mean_horizontal_position, Q.dot(n))
    ctx.close('rotation', turned, ref.matvec(Q, got), tol + 16 * EPS * cond, (n, Q))
    m = int(rng.integers(1, 20))
    one = np.repeat(n[:, :1], m, axis=1)
    same = ctx.do('mean_horizontal_position', nv.mean_horizontal_position, one)
    ctx.close('equal positions', same, n[:, :1], 8 * EPS * (1 + 0.05 * m), one)
    ctx.tag('columns {}'.format(k))


def objects(ctx, rng, idx):
    nv = ctx.nv
    fr, a, f, R, ax = frame(ctx, rng)
    n = cloud(rng)
    k = n.shape[1]
    z = depth(rng, n, a, f, R)
    kind = KINDS[rng.integers(3)]
    scalar = k == 1 and bool(rng.integers(2))
    P = make_point(ctx, kind, fr, n, z, R, a, f, scalar)
    V = ctx.do('to_nvector', P.to_nvector)
    if kind == 'nvec' and rng.integers(4) == 0:     # a common depth
        z = np.full(k, z[0])
        V = ctx.do('Nvector', nv.Nvector, n, float(z[0]), frame=fr)
    zs = ref.ld(np.broadcast_to(V.z, (k,)))
    total = ref.ld(V.normal).sum(axis=1, keepdims=True)
    size = float(ref.norm(total)[0])
    if size < (1e-6 * k if k > 2 else 1e-14):
        ctx.tag('cancelling')
        return
    tol = 8 * EPS * (1 if k < 3 else k / size * (1 + 0.05 * k))
    M = ctx.do('Nvector.mean', V.mean) if rng.integers(4) else ctx.warned(
        'Nvector.mean_horizontal_position', V.mean_horizontal_position)[0]
    ctx.true('type', isinstance(M, nv.Nvector) and M.frame == fr)
    ctx.close('Nvector mean', M.normal, ref.unit(total), tol, n)
    ctx.shape('depth shape', M.z, ())
    ctx.close('mean depth', M.z, zs.mean(), 8 * EPS * np.abs(zs).sum() + EPS * a, (z, kind))
    same = ctx.do('Nvector', nv.Nvector, np.repeat(V.normal[:, :1], 3, axis=1), np.full(3, z[0]), frame=fr)
    S = ctx.do('Nvector.mean', same.mean)
    ctx.close('mean of equal positions', S.normal, V.normal[:, :1], 16 * EPS)
    ctx.close('mean depth of equal positions', S.z, z[0], 8 * EPS * abs(z[0]))
    ctx.tag('from ' + kind)


WORKLOADS = [('functional', functional, 4000, 120000), ('objects', objects, 2500, 60000)]
REQUIRE = ['mean', 'order', 'rotation', 'equal positions', 'Nvector mean', 'mean depth', 'unit length']
