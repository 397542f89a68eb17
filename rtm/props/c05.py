"""C05: decomposition of vectors in local frames"""
import numpy as np

from rtm import gen, ref
from rtm.props.c02 import depth
from rtm.props.c04 import as_stack, lon_cond, on_pole, positions
from rtm.props.common import EPS, KINDS, PI, R_of, frame, kw_R, make_point

TECHNIQUE = ('extended-precision rotation model plus conservation monitors (length, round trip) on every '
             'change of frame')


def R_local(n, R, kind, wa=None, ypr=None):
    """3x3xk rotation matrix of the local frame; NaN where north is undefined"""
    with np.errstate(all='ignore'):
        M = ref.R_EN(n, R)
    pole = np.asarray(on_pole(n, R))
    y = np.broadcast_to(ref.matTvec(R, np.array([[0.], [1], [0]])), n.shape)
    d = -ref.unit(n)
    if kind in 'NB':
        M = np.where(pole, np.stack([ref.cross(y, d), y, d], axis=1), M)
    else:
        M = np.where(pole, np.nan, M)
    if kind == 'L':
        M = ref.matmul(M, ref.elementary('z', wa))
    elif kind == 'B':
        M = ref.matmul(M, ref.rot_zyx(*ypr))
    return M


def local_frame(ctx, rng, P, k, which, m):
    """(frame object, wander azimuth, yaw-pitch-roll) with m attitudes"""
    nv = ctx.nv
    if which == 'N':
        return ctx.do('FrameN', nv.FrameN, P), None, None
    if which == 'L':
        wa = gen.angle(rng, m, 'many')
        if rng.integers(3) == 0:
            wa = np.full(m, wa[0])
            return ctx.do('FrameL', nv.FrameL, P, wander_azimuth=float(wa[0])), wa, None
        return ctx.do('FrameL', nv.FrameL, P, wander_azimuth=wa), wa, None
    ypr = [gen.angle(rng, m, 'many') for _ in range(3)]
    if m == 1 or rng.integers(3) == 0:
        ypr = [np.full(m, x[0]) for x in ypr]
        return ctx.do('FrameB', nv.FrameB, P, *[float(x[0]) for x in ypr]), None, ypr
    return ctx.do('FrameB', nv.FrameB, P, *ypr), None, ypr


def check_polar(ctx, v, name):
    """azimuth, elevation and length follow from the components"""
    p = np.asarray(v.pvector)
    length = np.atleast_1d(ctx.do('length', lambda: v.length))
    az = np.atleast_1d(ctx.do('azimuth', lambda: v.azimuth))
    el = np.atleast_1d(ctx.do('elevation', lambda: v.elevation))
    az_d = np.atleast_1d(ctx.do('azimuth_deg', lambda: v.azimuth_deg))
    el_d = np.atleast_1d(ctx.do('elevation_deg', lambda: v.elevation_deg))
    ln = ref.norm(p)
    ctx.close(name + ' length', length, ln, 8 * EPS * ln, p)
    ctx.close_ang(name + ' azimuth', az, np.arctan2(ref.ld(p[1]), ref.ld(p[0])), 8 * EPS, p)
    ok = ln > 1e-150
    hor = np.hypot(ref.ld(p[0]), ref.ld(p[1]))
    want = np.arctan2(ref.ld(p[2]), hor)
    tan = np.abs(p[2]) / np.maximum(hor, 1e-300)
    ctx.close(name + ' elevation', np.where(ok, el, 0), np.where(ok, want, 0),
              8 * EPS + np.minimum(8 * EPS * tan, np.sqrt(16 * EPS)), p)
    ctx.close(name + ' azimuth in degrees', az_d, np.rad2deg(az), 8 * EPS * 180)
    ctx.close(name + ' elevation in degrees', el_d[ok], np.rad2deg(el[ok]), 8 * EPS * 90)


def change(ctx, rng, idx):
    """E -> local frame -> E for arbitrary vectors and positions"""
    nv = ctx.nv
    fr, a, f, R, ax = frame(ctx, rng)
    k = gen.ncols(rng)
    n = positions(rng, k, R)
    z = depth(rng, n, a, f, R)
    pk = KINDS[rng.integers(3)]
    scalar = k == 1 and bool(rng.integers(2))
    P = make_point(ctx, pk, fr, n, z, R, a, f, scalar)
    n = np.array(ctx.do('to_nvector', P.to_nvector).normal)
    which = 'NLB'[rng.integers(3)]
    shapes = rng.integers(4)
    m = k                                    # attitudes
    if k == 1 and which != 'N' and shapes == 0:
        m = 1 + gen.ncols(rng)
    vk = max(k, m)                           # vectors
    if shapes == 1:
        vk = 1 if vk > 1 else 1 + gen.ncols(rng)
    F, wa, ypr = local_frame(ctx, rng, P, k, which, m)
    v = gen.normalize(rng.normal(size=(3, vk))) * a * 10 ** rng.uniform(-9, 2, vk)
    v = np.where(rng.random(vk) < 0.2, gen.AXES6[:, rng.integers(6, size=vk)] * 1000.0, v)
    v = np.where(rng.random(vk) < 0.15, n[:, :1] * rng.choice([-5.0, 7.0]), v)
    vs = vk == 1 and (shapes == 1 or bool(rng.integers(2)))
    E = ctx.do('ECEFvector', nv.ECEFvector, v, frame=fr) if vs or vk > 1 else \
        ctx.do('ECEFvector', nv.ECEFvector, v, frame=fr, scalar=False)
    M = R_local(n, R, which, wa, ypr)
    w = max(M.shape[2], vk)
    got = ctx.do('change_frame', E.change_frame, F)
    want = ref.matTvec(M, v)
    ln = np.broadcast_to(ref.norm(v), (w,))
    tiny = np.broadcast_to((ref.cos_lat(n, R) < 1e-150), (w,))
    free = np.isnan(want) | tiny
    ctx.shape('components shape', got.pvector, (3, w))
    ctx.close('components', got.pvector, np.where(free, got.pvector, want), 48 * EPS * ln, (n, v, which, wa, ypr))
    ctx.close('length kept', ref.norm(got.pvector), ln, 32 * EPS * ln, (n, v, which))
    ctx.true('belongs to the local frame', isinstance(got, nv.Pvector) and not isinstance(got, nv.ECEFvector)
             and (got.frame is F or got.frame == F))
    back = ctx.do('to_ecef_vector', got.to_ecef_vector)
    ctx.close('back to E', back.pvector, np.broadcast_to(v, (3, w)), 48 * EPS * ln, (n, v, which))
    ctx.true('ECEF in the frame', isinstance(back, nv.ECEFvector) and back.frame == fr)
    out_scalar = vs and w == 1
    ctx.eq('scalar flag', np.ndim(ctx.do('length', lambda: got.length)) == 0, out_scalar, (k, m, vk, pk))
    ctx.eq('scalar flag', np.ndim(ctx.do('length', lambda: back.length)) == 0, out_scalar, (k, m, vk, pk))
    check_polar(ctx, got, 'local')
    # the local frame's own vectors
    u = gen.normalize(rng.normal(size=(3, w))) * a * 10 ** rng.uniform(-9, 2, w)
    Q = ctx.do('Pvector', F.Pvector, u) if rng.integers(2) else ctx.do('Pvector', nv.Pvector, u, frame=F)
    e = ctx.do('to_ecef_vector', Q.to_ecef_vector)
    want = ref.matvec(M, u)
    free = np.isnan(want) | tiny
    ctx.close('local to E', e.pvector, np.where(free, e.pvector, want), 48 * EPS * ref.norm(u), (n, u, which))
    ctx.tag('frame ' + which)
    ctx.tag('vectors {} positions {} attitudes {}'.format(*['1' if x == 1 else 'n' for x in (vk, k, m)]))


def deltas(ctx, rng, idx):
    nv = ctx.nv
    fr, a, f, R, ax = frame(ctx, rng)
    k = gen.ncols(rng)
    nA = positions(rng, k, R)
    nB = gen.partner(rng, nA)
    if rng.integers(3) == 0:
        zA, zB = np.zeros(k), np.zeros(k)
    else:
        zA, zB = depth(rng, nA, a, f, R), depth(rng, nB, a, f, R)
    scalar = k == 1 and bool(rng.integers(2))
    kinds = [KINDS[i] for i in rng.integers(3, size=2)]
    A = make_point(ctx, kinds[0], fr, nA, zA, R, a, f, scalar)
    B = make_point(ctx, kinds[1], fr, nB, zB, R, a, f, scalar)
    va = ctx.do('to_nvector', A.to_nvector)
    n = np.array(va.normal)
    pA = ref.n2p(n, np.atleast_1d(va.z), a, f, R)
    vb = ctx.do('to_nvector', B.to_nvector)
    pB = ref.n2p(np.asarray(vb.normal), np.atleast_1d(vb.z), a, f, R)
    scale = a + np.abs(zA) + np.abs(zB)
    info = (nA, nB, zA, zB, a, f, ax, kinds)
    form = rng.integers(5)
    wa = np.zeros(k)
    if form == 0:
        d = ctx.do('delta_N', nv.delta_N, A, B)
    elif form == 1:
        d = ctx.do('delta_to', A.delta_to, B)
    elif form == 2:
        d = ctx.do('delta_E.change_frame', lambda: nv.delta_E(A, B).change_frame(nv.FrameN(A)))
    else:
        wa = gen.angle(rng, k)
        if rng.integers(2):
            wa = np.full(k, wa[0])
            w = float(wa[0])
        else:
            w = wa if not scalar else float(wa[0])
        if form == 3:
            d = ctx.do('delta_L', nv.delta_L, A, B, wander_azimuth=w)
        else:
            d = ctx.do('delta_L', nv.delta_L, A, B)
            wa = np.zeros(k)
    which = 'N' if form < 3 else 'L'
    M = R_local(n, R, which, wa)
    want = ref.matTvec(M, pB - pA)
    tiny = ref.cos_lat(n, R) < 1e-150
    free = np.isnan(want) | tiny
    # a GeoPoint or ECEFvector rounds the position by some eps of the radius
    tol = 96 * EPS * scale
    ctx.close('delta in local frame of A', d.pvector, np.where(free, d.pvector, want), tol, info)
    ctx.eq('delta scalar flag', np.ndim(ctx.do('length', lambda: d.length)) == 0, scalar)
    check_polar(ctx, d, 'delta')
    e = ctx.do('to_ecef_vector', d.to_ecef_vector)
    ctx.close('delta back to E', e.pvector, pB - pA, 2 * tol, info)
    ctx.true('ECEF in the frame', isinstance(e, nv.ECEFvector) and e.frame == fr)
    # and from there in another frame
    turn = float(gen.angle(rng, 1)[0])
    G = ctx.do('FrameL', nv.FrameL, A, wander_azimuth=turn) if rng.integers(2) else ctx.do('FrameB', nv.FrameB, B, turn)
    g = ctx.do('change_frame', e.change_frame, G)
    L = R_local(n, R, 'L', np.full(k, turn)) if type(G) is nv.FrameL else R_local(
        np.asarray(vb.normal), R, 'B', None, [np.full(k, turn), np.zeros(k), np.zeros(k)])
    again = ref.matTvec(L, pB - pA)
    free = np.isnan(again) | (ref.cos_lat(n, R) < 1e-150) | (ref.cos_lat(np.asarray(vb.normal), R) < 1e-150)
    ctx.close('delta in another frame', g.pvector, np.where(free, g.pvector, again), 2 * tol, info)
    ctx.true('origin of the frame is A', np.abs(ref.ld(d.frame.nvector.normal) - n) <= 16 * EPS)
    ctx.true('kind of frame', type(d.frame) is (nv.FrameN if which == 'N' else nv.FrameL))
    ctx.tag('delta in ' + which)
    ctx.tag('kinds ' + '-'.join(kinds))


def azimuth(ctx, rng, idx):
    nv = ctx.nv
    R, kind = gen.R_Ee(rng)
    if rng.random() < 0.2:
        (a, f), kw = gen.WGS84, {}
    else:
        a, f = gen.ellipsoid(rng)
        kw = dict(a=a, f=f)
    k = gen.ncols(rng)
    nA = positions(rng, k, R_of(R))
    nB = gen.partner(rng, nA)
    got = ctx.do('n_EA_E_and_n_EB_E2azimuth', nv.n_EA_E_and_n_EB_E2azimuth, nA, nB, **dict(kw, **kw_R(R)))
    ctx.shape('azimuth shape', got, (k,))
    ctx.true('azimuth range', np.abs(got) <= PI * (1 + 4 * EPS), got)
    zero = np.zeros(k)
    d = ref.n2p(nB, zero, a, f, R_of(R)) - ref.n2p(nA, zero, a, f, R_of(R))
    M = R_local(nA, R_of(R), 'N')
    v = ref.matTvec(M, d)
    hor = np.hypot(v[0], v[1])
    tol = 16 * EPS * lon_cond(nA, R_of(R)) + 48 * EPS * a / np.maximum(hor, 1e-300)
    bad = np.isnan(v[0]) | (tol > 0.1) | (ref.cos_lat(nA, R_of(R)) < 1e-150)
    ctx.close_ang('azimuth of A to B', np.where(bad, 0, got), np.where(bad, 0, np.arctan2(v[1], v[0])), tol,
                  (nA, nB, a, f, R))
    ctx.tag('azimuth well conditioned', (~bad).sum())
    ctx.tag('azimuth undefined', bad.sum())
    ctx.tag('axes ' + kind)


WORKLOADS = [('change', change, 3000, 80000), ('deltas', deltas, 3000, 80000), ('azimuth', azimuth, 4000, 120000)]
REQUIRE = ['components', 'length kept', 'back to E', 'local to E', 'delta in local frame of A', 'local azimuth',
           'local elevation', 'delta azimuth', 'delta back to E', 'delta in another frame', 'delta elevation', 'azimuth of A to B', 'scalar flag',
           'delta scalar flag']
