"""C04: local frames are proper rotations with the documented axes"""
import numpy as np

from rtm import gen, ref
from rtm.props.c02 import depth
from rtm.props.common import EPS, KINDS, PI, R_of, axes_class, frame, kw_R, make_point

TECHNIQUE = ('structural invariant monitors (orthonormal, determinant, axes) and extended-precision '
             'rotations on every matrix produced')


def as_stack(M, k):
    M = np.asarray(M)
    return M.reshape(3, 3, 1) if M.shape == (3, 3) and k == 1 else M


def check_proper(ctx, name, M, k, R):
    ctx.shape(name + ' shape', M, (3, 3, k))
    slack = 16 if axes_class(R) else 48
    eye = np.broadcast_to(np.eye(3)[:, :, None], (3, 3, k))
    ctx.close(name + ' orthonormal', ref.matmul(np.swapaxes(M, 0, 1), M), eye, slack * EPS, M)
    det = ref.dot(ref.ld(M[:, 0]), ref.cross(M[:, 1], M[:, 2]))
    ctx.close(name + ' determinant', det, np.ones(k), slack * EPS, M)


def lon_cond(n, R):
    return 1 if axes_class(R) else 1 + 1 / np.maximum(ref.cos_lat(n, R), 1e-30)


def on_pole(n, R):
    v = ref.matvec(R, n)
    return (v[1] == 0) & (v[2] == 0)


def check_N(ctx, name, M, n, R):
    """M: 3x3xk matrix R_EN for unit vectors n"""
    k = n.shape[1]
    check_proper(ctx, name, M, k, R)
    ctx.close(name + ' down', M[:, 2], -ref.unit(n), 24 * EPS, n)
    with np.errstate(all='ignore'):
        want = ref.R_EN(n, R)
    pole = np.asarray(on_pole(n, R))
    y = ref.matTvec(R, np.array([[0.], [1], [0]]))
    yw = np.where(pole, y, want[:, 1])
    xw = np.where(pole, ref.cross(np.broadcast_to(y, n.shape), -ref.unit(n)), want[:, 0])
    tiny = (ref.cos_lat(n, R) < 1e-150) & ~pole
    cond = lon_cond(n, R)
    tol = np.where(tiny, 3, 24 * EPS * cond)
    ctx.close(name + ' north', M[:, 0], np.where(tiny, M[:, 0], xw), tol, (n, R))
    ctx.close(name + ' east', M[:, 1], np.where(tiny, M[:, 1], yw), tol, (n, R))
    ctx.tag('exactly at a pole', pole.sum())


def positions(rng, k, R):
    """n-vectors, with more of them at and next to the poles of these axes"""
    n = gen.nvec(rng, k)
    m = rng.random(k) < 0.2
    if axes_class(R):
        pole = np.asarray(ref.matTvec(R, np.array([[1.], [0], [0]]))).astype(float) * gen.sign(rng, k)
        off = gen.perp(rng, pole) * np.where(rng.random(k) < 0.5, 0, 10 ** rng.uniform(-20, -3, k))
        n = np.where(m, gen.normalize(pole + off), n)
    return np.ascontiguousarray(n)


def functional(ctx, rng, idx):
    nv = ctx.nv
    R, kind = gen.R_Ee(rng)
    k = gen.ncols(rng)
    n = positions(rng, k, R_of(R))
    M = ctx.do('n_E2R_EN', nv.n_E2R_EN, gen.layout(rng, n), **kw_R(R))
    check_N(ctx, 'N', as_stack(M, k), n, R_of(R))
    back = ctx.do('R_EN2n_E', nv.R_EN2n_E, M)
    ctx.close('R_EN2n_E', back, n, 24 * EPS, n)
    wa = gen.angle(rng, k, 'many')
    if rng.integers(2):
        wa = np.full(k, wa[0])
        w = float(wa[0])
    else:
        w = wa
    M = ctx.do('n_E_and_wa2R_EL', nv.n_E_and_wa2R_EL, n, w, **kw_R(R))
    check_L(ctx, 'L', as_stack(M, k), n, wa, R_of(R))
    back = ctx.do('R_EL2n_E', nv.R_EL2n_E, M)
    ctx.close('R_EL2n_E', back, n, 32 * EPS, n)
    ctx.tag('axes ' + kind)


def check_L(ctx, name, M, n, wa, R):
    k = max(n.shape[1], np.size(wa))
    check_proper(ctx, name, M, k, R)
    nn = np.broadcast_to(n, (3, k))
    ctx.close(name + ' down', M[:, 2], -ref.unit(nn), 32 * EPS, n)
    lat, lon = ref.n2latlon(n, R)
    lon = np.where(on_pole(n, R), np.nan, lon)
    want = ref.matmul(np.asarray(R).T, ref.rot_xyz(lon, -lat, wa))
    free = np.isnan(want)
    tol = 32 * EPS * lon_cond(n, R)
    tol = np.where(np.broadcast_to(ref.cos_lat(n, R) < 1e-150, (k,)), 3, tol)
    ctx.close(name + ' attitude', M, np.where(free, M, want), tol, (n, wa, R))


def origin(ctx, name, F, n, z, fr):
    """N and L have their origin directly beneath the position, at the surface; B at the position"""
    v = F.nvector
    ctx.true(name + ' origin direction', np.array_equal(v.normal, n), (v, n))
    ctx.true(name + ' origin depth', np.ravel(v.z) == z, (v, z))
    ctx.true(name + ' origin frame', v.frame == fr, v)


def objects(ctx, rng, idx):
    nv = ctx.nv
    fr, a, f, R, ax = frame(ctx, rng)
    k = gen.ncols(rng)
    n = positions(rng, k, R)
    z = depth(rng, n, a, f, R)
    scalar = k == 1 and bool(rng.integers(2))
    kind = KINDS[rng.integers(3)]
    P = make_point(ctx, kind, fr, n, z, R, a, f, scalar)
    n = np.array(ctx.do('to_nvector', P.to_nvector).normal)   # the position the point really has
    N = ctx.do('FrameN', nv.FrameN, P)
    M = as_stack(ctx.do('FrameN.R_EN', lambda: N.R_EN), k)
    check_N(ctx, 'FrameN', M, n, R)
    origin(ctx, 'FrameN', N, n, np.zeros(k), fr)
    many = k == 1 and rng.integers(3) == 0       # one position, several attitudes
    m = 1 + gen.ncols(rng) if many else k
    wa = gen.angle(rng, m, 'many')
    w = wa
    if rng.integers(3) == 0 and not many:
        w = float(wa[0])
        wa = np.full(m, w)
    style = rng.integers(3)
    if style == 0 and not many:
        F = ctx.do('FrameL', nv.FrameL, P)
        wa = np.zeros(m)
    elif style == 1:
        F = ctx.do('FrameL', nv.FrameL, P, w)
    else:
        F = ctx.do('FrameL', nv.FrameL, P, wander_azimuth=w)
    M = as_stack(ctx.do('FrameL.R_EN', lambda: F.R_EN), m)
    check_L(ctx, 'FrameL', M, n, wa, R)
    origin(ctx, 'FrameL', F, n, np.zeros(k), fr)
    yaw, pitch, roll = gen.angle(rng, m, 'many'), gen.angle(rng, m), gen.angle(rng, m, 'many')
    args = [yaw, pitch, roll]
    ref_args = [yaw, pitch, roll]
    for i in range(3):
        c = rng.integers(3)
        if c == 0 and not many:
            args[i] = float(args[i][0])
            ref_args[i] = np.full(m, args[i])
    degrees = bool(rng.integers(2))
    if degrees:
        args = [np.rad2deg(x) for x in args]
        ref_args = [np.deg2rad(np.rad2deg(x)) for x in ref_args]
    kw = dict(degrees=True) if degrees else {}
    if rng.integers(2):
        B = ctx.do('FrameB', nv.FrameB, P, *args, **kw)
    else:
        B = ctx.do('FrameB', nv.FrameB, P, yaw=args[0], pitch=args[1], roll=args[2], **kw)
    M = as_stack(ctx.do('FrameB.R_EN', lambda: B.R_EN), m)
    check_proper(ctx, 'FrameB', M, m, R)
    origin(ctx, 'FrameB', B, n, np.ravel(ctx.do('to_nvector', P.to_nvector).z), fr)
    turns = 1 + max(float(np.abs(x).max()) for x in ref_args) if degrees else 1
    with np.errstate(all='ignore'):
        R_EN = ref.R_EN(n, R)
    R_EN = np.where(np.isnan(R_EN), as_stack(N.R_EN, k), R_EN)
    want = ref.matmul(R_EN, ref.rot_zyx(*ref_args))
    tiny = np.broadcast_to((ref.cos_lat(n, R) < 1e-150), (m,))
    ctx.close('FrameB attitude', M, np.where(tiny, M, want), 48 * EPS * turns, (n, args))
    ctx.tag('frame of a ' + kind)
    ctx.tag('scalar' if scalar else 'vector')
    if many:
        ctx.tag('one position, several attitudes')


WORKLOADS = [('functional', functional, 5000, 150000), ('objects', objects, 2500, 60000)]
REQUIRE = [x + y for x in ('N', 'L', 'FrameN', 'FrameL', 'FrameB') for y in (' orthonormal', ' determinant')] + [
    'N north', 'N east', 'N down', 'L attitude', 'FrameL attitude', 'FrameB attitude', 'R_EN2n_E', 'R_EL2n_E']
