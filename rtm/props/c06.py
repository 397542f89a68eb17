"""C06: Euler angles <-> rotation matrices"""
import numpy as np

from rtm import gen, ref
from rtm.props.common import EPS, PI

TECHNIQUE = ('extended-precision products of elementary rotations; rebuild-the-matrix oracle over the whole angle '
             'space including gimbal lock')


def angles(rng, k, principal):
    x, z = gen.angle(rng, k, turns=False if principal else 'many'), gen.angle(rng, k, turns=False if principal else 'many')
    y = gen.angle(rng, k, turns=False if principal else 'many')
    m = rng.integers(4, size=k)
    lock = gen.sign(rng, k) * (PI / 2 - np.where(rng.random(k) < 0.3, 0, gen.tiny(rng, k, 0, 18)))
    y = np.where(m == 0, lock, y)
    if principal:
        x, z = np.clip(x, -PI, PI), np.clip(z, -PI, PI)
        y = np.clip(np.where(np.abs(y) > PI / 2, y / 2, y), -PI / 2, PI / 2)
    return x, y, z


FORMS = {'xyz': ('xyz2R', 'R2xyz', ref.rot_xyz), 'zyx': ('zyx2R', 'R2zyx', ref.rot_zyx)}


def stack(M, k):
    M = np.asarray(M)
    return M.reshape(3, 3, 1) if k == 1 and M.shape == (3, 3) else M


def to_matrix(ctx, rng, idx):
    form = ('xyz', 'zyx')[rng.integers(2)]
    f_name, b_name, model = FORMS[form]
    k = gen.ncols(rng)
    principal = bool(rng.integers(2))
    ang = list(angles(rng, k, principal))
    args = list(ang)
    if k == 1 and rng.integers(2):
        args = [float(x[0]) for x in ang]
    elif rng.integers(3) == 0:
        for i in range(3):
            if rng.integers(2):
                args[i] = float(ang[i][0])
                ang[i] = np.full(k, args[i])
        if all(np.ndim(x) == 0 for x in args):
            k = 1
            ang = [x[:1] for x in ang]
    M = ctx.do(f_name, getattr(ctx.nv, f_name), *args)
    ctx.shape(form + ' shape', M, (3, 3) if k == 1 else (3, 3, k))
    ctx.close(form + ' matrix', stack(M, k), model(*ang), 8 * EPS, ang)
    check_extract(ctx, form, M, k)
    got = ctx.trace[-1][3]
    if principal:
        cy = np.cos(ang[1])
        tol = 16 * EPS + 16 * EPS / np.maximum(np.abs(cy), 1e-30)
        ok = tol < 1
        ctx.close_ang(form + ' first angle recovered', np.where(ok, np.ravel(got[0]), ang[0]), ang[0], tol, ang)
        ctx.close(form + ' middle angle recovered', np.ravel(got[1]), ang[1], 24 * EPS, ang)
        ctx.close_ang(form + ' last angle recovered', np.where(ok, np.ravel(got[2]), ang[2]), ang[2], tol, ang)
    ctx.tag('principal' if principal else 'any angles')
    ctx.tag('gimbal lock within 1e-6', (np.abs(np.cos(ang[1])) < 1e-6).sum())


def check_extract(ctx, form, M, k):
    f_name, b_name, model = FORMS[form]
    got = ctx.do(b_name, getattr(ctx.nv, b_name), M)
    ctx.eq(form + ' three angles', len(got), 3)
    for x in got:
        ctx.eq(form + ' angle shape', np.shape(x), () if np.ndim(M) == 2 else (k,))
    a, b, c = [np.atleast_1d(x) for x in got]
    ctx.true(form + ' angle range', (np.abs(a) <= PI * (1 + 2 * EPS)) & (np.abs(c) <= PI * (1 + 2 * EPS))
             & (np.abs(b) <= PI / 2 * (1 + 4 * EPS)), got)
    ctx.close(form + ' matrix rebuilt', model(a, b, c), stack(M, k), 32 * EPS, M)


def extract(ctx, rng, idx):
    """any rotation matrix: uniform, exact signed permutations, computed gimbal lock, products"""
    form = ('xyz', 'zyx')[rng.integers(2)]
    k = gen.ncols(rng)
    cols = []
    for _ in range(k):
        c = rng.integers(5)
        if c == 0:
            M = gen.rotation(rng)
        elif c == 1:
            M = gen.PERM24[rng.integers(24)]
        elif c == 2:
            x, y, z = angles(rng, 1, False)
            M = np.asarray(FORMS[form][2](x, y, z)).astype(float)[:, :, 0]
        elif c == 3:
            M = np.asarray(FORMS[('zyx', 'xyz')[rng.integers(2)]][2](*angles(rng, 1, False))).astype(float)[:, :, 0]
        else:
            M = gen.PERM24[rng.integers(24)].dot(np.asarray(ref.elementary(
                'xyz'[rng.integers(3)], gen.angle(rng, 1))).astype(float)[:, :, 0])
        cols.append(M)
    M = np.stack(cols, axis=2)
    if k == 1 and rng.integers(2):
        M = np.ascontiguousarray(M[:, :, 0])
    # generated matrices are themselves rotations only to a few eps
    check_extract(ctx, form, gen.layout(rng, M), k)
    ctx.tag('exact signed permutation', sum(bool(np.isin(np.abs(c), (0., 1.)).all()) for c in cols))


WORKLOADS = [('to_matrix', to_matrix, 8000, 400000), ('extract', extract, 8000, 400000)]
REQUIRE = [f + ' ' + m for f in ('xyz', 'zyx') for m in (
    'matrix', 'matrix rebuilt', 'first angle recovered', 'middle angle recovered', 'last angle recovered', 'angle range')]
