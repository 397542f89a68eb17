"""C02: ECEF position <-> n-vector and depth"""
import numpy as np

from rtm import gen, ref
from rtm.props.common import EPS, KINDS, R_of, frame, kw_R, make_point, to_double

TECHNIQUE = ('backward check of every conversion against an extended-precision ellipsoid model '
             'over hostile positions, ellipsoids and axes')


def ell(rng):
    """(a, f, keyword arguments); the defaults are sometimes left out"""
    if rng.random() < 0.2:
        return gen.WGS84 + ({},)
    a, f = gen.ellipsoid(rng)
    return a, f, dict(a=a, f=f)


def outside_core(p, a, f, R, factor=1.3):
    """further from the centre than about e^2 a (43 km for the Earth): inside, where the evolute of the
    meridian ellipse lies and normals are not unique, the closed form is not meant to work"""
    v = ref.matvec(R, p)
    e2 = f * (2 - f)
    return (v[1] ** 2 + v[2] ** 2 + (1 - e2) * v[0] ** 2) > (factor * e2 * a) ** 2


def depth(rng, n, a, f, R):
    """any height; down to 98 % of the smallest radius of curvature, outside the core"""
    k = n.shape[1]
    z = gen.depth(rng, k, a)
    m = rng.random(k) < 0.15
    z = np.where(m, a * (1 - f) ** 2 * rng.uniform(0.5, 0.98, k), z)
    z = np.minimum(z, 0.98 * a * (1 - f) ** 2)
    for _ in range(8):
        z = np.where(outside_core(ref.n2p(n, z, a, f, R), a, f, R), z, 0.8 * z)
    z = np.where(outside_core(ref.n2p(n, z, a, f, R), a, f, R), z, 0.)
    if a > 1e6 and rng.integers(12) == 0:
        whole = np.trunc(z).astype(np.int64)
        return np.where(outside_core(ref.n2p(n, whole, a, f, R), a, f, R), whole, 0)
    return z


def curvature_margin(a, f, z):
    return a * (1 - f) ** 2 - z


def check_inverse(ctx, name, got, p, a, f, R, n=None, z=None):
    nb, zb = got
    k = p.shape[1]
    ctx.shape(name + ' shape', nb, (3, k))
    ctx.shape(name + ' depth shape', zb, (k,))
    scale = a + ref.norm(p)
    ctx.close(name + ' reproduces the position', ref.n2p(nb, zb, a, f, R), p, 48 * EPS * scale, (p, a, f))
    ctx.close(name + ' unit normal', ref.norm(nb), np.ones(k), 8 * EPS)
    if n is not None:
        cond = (a + np.abs(z)) / curvature_margin(a, f, z)
        ctx.close(name + ' normal', nb, ref.unit(n), 64 * EPS * cond, (n, z, a, f))
        ctx.close(name + ' depth', zb, z, 64 * EPS * (a + np.abs(z)) * np.maximum(cond, 1), (n, z, a, f))


def functional(ctx, rng, idx):
    nv = ctx.nv
    R, kind = gen.R_Ee(rng)
    a, f, kw = ell(rng)
    kw.update(kw_R(R))
    k = gen.ncols(rng)
    n = gen.nvec(rng, k)
    z = zz = depth(rng, n, a, f, R_of(R))
    mode = rng.integers(4)
    if mode == 0:
        zz = float(z[z.argmin()])
        z = np.full(k, zz)
    elif mode == 1:
        z = np.zeros(k)
    if mode == 1:
        p = ctx.do('n_EB_E2p_EB_E', nv.n_EB_E2p_EB_E, n, **kw)
    elif rng.integers(2):
        p = ctx.do('n_EB_E2p_EB_E', nv.n_EB_E2p_EB_E, n, zz, **kw)
    else:
        p = ctx.do('n_EB_E2p_EB_E', nv.n_EB_E2p_EB_E, n, depth=zz, **kw)
    want = ref.n2p(n, z, a, f, R_of(R))
    ctx.close('Cartesian position', p, want, 16 * EPS * (a + np.abs(z)), (n, z, a, f))
    got = ctx.do('p_EB_E2n_EB_E', nv.p_EB_E2n_EB_E, p, **kw)
    check_inverse(ctx, 'inverse', got, p, a, f, R_of(R), n, z)
    ctx.tag('axes ' + kind)
    ctx.tag('sphere' if f == 0 else 'ellipsoid')
    ctx.tag('at the exact poles', (ref.cos_lat(n, R_of(R)) < 1e-15).sum())
    ctx.tag('deeper than half the radius', (z > a / 2).sum())
    ctx.tag('higher than ten radii', (z < -10 * a).sum())


def special(ctx, rng, idx):
    """positions on and next to the axes, exact radii"""
    nv = ctx.nv
    a, f, kw = ell(rng)
    R, kind = [(None, 'default'), (np.eye(3), 'E'), (gen.PERM24[rng.integers(24)].copy(), 'perm')][rng.integers(3)]
    kw.update(kw_R(R))
    k = gen.ncols(rng)
    b = a * (1 - f)
    radius = np.where(rng.random(k) < 0.3, rng.choice([a, b, a * 0.5, 2 * a, 100 * a], k),
                      a * 10 ** rng.uniform(-0.3, 3, k))
    v = gen.AXES6[:, rng.integers(6, size=k)]
    off = gen.perp(rng, v) * np.where(rng.random(k) < 0.4, 0, 10 ** rng.uniform(-30, -1, k))
    off *= rng.integers(0, 2, (3, k))
    p = np.ascontiguousarray((v + off) * radius)
    got = ctx.do('p_EB_E2n_EB_E', nv.p_EB_E2n_EB_E, gen.layout(rng, p), **kw)
    check_inverse(ctx, 'near axes', got, p, a, f, R_of(R))
    along = (ref.unit(p) * ref.ld(got[0])).sum(axis=0)
    ctx.true('normal points outward', along > 0.5, (p, got))
    back = ctx.do('n_EB_E2p_EB_E', nv.n_EB_E2p_EB_E, got[0], got[1], **kw)
    ctx.close('Cartesian round trip', back, p, 64 * EPS * (a + ref.norm(p)), (p, a, f))
    ctx.tag('exactly on an axis', (off == 0).all(axis=0).sum())


def integers(ctx, rng, idx):
    """directions, depths, positions and radii which happen to be whole numbers, stored as integers"""
    nv = ctx.nv
    a, f, kw = ell(rng)
    if rng.integers(2):
        a = float(round(max(a, 2.0)))
        kw = dict(a=int(a), f=f)
    R, kind = [(None, 'default'), (np.eye(3), 'E'), (gen.PERM24[rng.integers(24)].copy(), 'perm')][rng.integers(3)]
    kw.update(kw_R(R))
    k = gen.ncols(rng)
    n = gen.AXES6[:, rng.integers(6, size=k)]
    z = rng.integers(-100, 100, k) / rng.choice([1., 8.])
    z = z * np.minimum(1, a / 1000)
    as_int = n.astype((np.int64, np.int32)[rng.integers(2)])
    depths = z
    if (z == np.round(z)).all() and rng.integers(2):
        depths = z.astype(int)
    if k == 1 and rng.integers(2):
        depths = depths[0].item()
    p = ctx.do('n_EB_E2p_EB_E', nv.n_EB_E2p_EB_E, as_int, depths, **kw)
    ctx.close('position of integer n-vectors', p, ref.n2p(n, z, a, f, R_of(R)), 16 * EPS * (a + np.abs(z)),
              (as_int, depths, a, f))
    scale = max(1, int(a))
    q = rng.integers(-2 * scale, 2 * scale, (3, k))
    q[0, ~outside_core(q.astype(float), a, f, R_of(R), 2)] = 2 * scale
    q[1, ~outside_core(q.astype(float), a, f, R_of(R), 2)] = 2 * scale
    q[2, ~outside_core(q.astype(float), a, f, R_of(R), 2)] = 2 * scale
    got = ctx.do('p_EB_E2n_EB_E', nv.p_EB_E2n_EB_E, q, **kw)
    check_inverse(ctx, 'integer position', got, q.astype(float), a, f, R_of(R))


def objects(ctx, rng, idx):
    fr, a, f, R, ax = frame(ctx, rng)
    k = gen.ncols(rng)
    n = gen.nvec(rng, k)
    z = depth(rng, n, a, f, R)
    scalar = k == 1 and bool(rng.integers(2))
    kind = KINDS[rng.integers(3)]
    point = make_point(ctx, kind, fr, n, z, R, a, f, scalar)
    e = ctx.do('to_ecef_vector', point.to_ecef_vector)
    want = ref.n2p(n, z, a, f, R)
    # a GeoPoint holds rounded angles: a few eps of the radius
    ctx.close('ECEF vector', e.pvector, want, 32 * EPS * (a + np.abs(z)), (kind, n, z, a, f, ax))
    v = ctx.do('ECEFvector.to_nvector', e.to_nvector)
    check_inverse(ctx, 'ECEF to n-vector', (v.normal, np.atleast_1d(v.z)), np.asarray(e.pvector), a, f, R)
    cond = (a + np.abs(z)) / curvature_margin(a, f, z)
    ctx.close('n-vector after round trip', v.normal, n, 128 * EPS * cond, (kind, n, z, a, f, ax))
    g = ctx.do('ECEFvector.to_geo_point', e.to_geo_point)
    lat, lon = np.ravel(g.latitude), np.ravel(g.longitude)
    ctx.close('geo point after round trip', ref.latlon2n(lat, lon, R), n, 128 * EPS * cond, (kind, n, z, a, f, ax))
    ctx.close('depth after round trip', np.ravel(g.z), z, 128 * EPS * (a + np.abs(z)) * np.maximum(cond, 1))
    ctx.true('frame kept', e.frame == fr and v.frame == fr and g.frame == fr)
    for name, x in (('nvector', np.ndim(v.z)), ('geo point', np.ndim(g.z))):
        ctx.eq('scalar in, scalar out', x == 0, scalar, (name, kind, k))
    ctx.tag('kind ' + kind)


WORKLOADS = [('functional', functional, 8000, 300000), ('special', special, 5000, 150000),
             ('objects', objects, 5000, 150000), ('integers', integers, 1000, 20000)]
REQUIRE = ['Cartesian position', 'position of integer n-vectors', 'integer position reproduces the position', 'inverse reproduces the position', 'inverse normal', 'inverse depth',
           'near axes reproduces the position', 'Cartesian round trip', 'ECEF vector',
           'ECEF to n-vector reproduces the position', 'n-vector after round trip', 'depth after round trip']
