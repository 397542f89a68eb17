"""C24: ellipsoids and frames have the parameters asked for"""
import numpy as np

from rtm import catalog, gen, ref
from rtm.props.common import EPS, PI, KINDS, make_point

TECHNIQUE = ('table monitor: look-ups by number and by all names in random spelling against an independent table of '
             'the defining constants; frames from every combination of arguments judged by where they put a point')

# defining constants (semi-major axis, inverse flattening) from the literature
TABLE = {
    1: (6377563.396, 299.3249646), 2: (6377340.189, 299.3249646), 3: (6378160.0, 298.25),
    4: (6377397.155, 299.1528128), 5: (6378249.145, 293.465), 6: (6377276.345, 300.8017),
    7: (6377304.063, 300.8017), 8: (6378166.0, 298.3), 9: (6378150.0, 298.3), 10: (6378270.0, 297.0),
    11: (6378388.0, 297.0), 12: (6378245.0, 298.3), 13: (6378145.0, 298.25), 14: (6378160.0, 298.25),
    15: (6378136.0, 298.257), 16: (6378135.0, 298.26), 17: (6378206.4, 294.9786982138),
    18: (6378137.0, 298.257223563), 19: (6378137.0, 298.257222101)}
NAMES = {
    1: ('Airy 1858',), 2: ('Airy Modified',), 3: ('Australian National',), 4: ('Bessel 1841', 'Bessel'),
    5: ('Clarke 1880',), 6: ('Everest 1830',), 7: ('Everest Modified',), 8: ('Fisher 1960',), 9: ('Fisher 1968',),
    10: ('Hough 1956', 'Hough'),
    11: ('International', 'Hayford', 'ED50', 'International (Hayford)/European Datum (ED50)'),
    12: ('Krassovsky 1938', 'Krassovsky'), 13: ('NWL-9D', 'WGS 66', 'NWL-9D (WGS 66)'),
    14: ('South American 1969', 'SAD69'), 15: ('Soviet Geod. System 1985',), 16: ('WGS 72',),
    17: ('Clarke 1866', 'NAD27', 'Clarke 1866    (NAD27)'), 18: ('GRS80', 'WGS84', 'NAD83', 'GRS80 / WGS84  (NAD83)'),
    19: ('ETRS89',)}
ALL = [(i, n) for i in sorted(NAMES) for n in NAMES[i] + (i,)]
KNOWN = {n.lower().replace(' ', '') for i in NAMES for n in NAMES[i]}


def spell(rng, name):
    """another case and other spaces"""
    if not isinstance(name, str):
        return (name, np.int64(name))[rng.integers(2)]
    how = rng.integers(4)
    s = (name, name.lower(), name.upper(), ''.join(c.upper() if rng.integers(2) else c.lower() for c in name))[how]
    how = rng.integers(4)
    if how == 1:
        return s.replace(' ', '')
    if how == 2:
        return ''.join(c + ' ' * int(rng.integers(3) == 0) * int(rng.integers(1, 3)) for c in s)
    if how == 3:
        return ' ' + s + '  '
    return s


def same_parameters(ctx, name, a, f, i, info):
    A, inv = TABLE[i]
    ctx.close(name, np.array([a, f], dtype=float), np.array([A, 1 / inv]), np.array([2 * EPS * A, 2 * EPS]), info)


def lookup(ctx, rng, idx):
    i, name = ALL[idx % len(ALL)]
    key = spell(rng, name)
    fn = ctx.nv.get_ellipsoid if rng.integers(3) else ctx.nv.util.select_ellipsoid
    e = ctx.do('get_ellipsoid', fn, key)
    a, f, full = e
    same_parameters(ctx, 'ellipsoid', a, f, i, key)
    ctx.true('named tuple', e.a == a and e.f == f and e.name == full and isinstance(full, str) and len(full) > 3, e)
    ctx.true('same entry for every name', e == ctx.do('get_ellipsoid', ctx.nv.get_ellipsoid, i), (e, i))
    first = NAMES[i][0].lower().replace(' ', '')[:4]
    ctx.true('name belongs to the ellipsoid', first in full.lower().replace(' ', ''), (full, key))
    if not isinstance(key, str):
        return
    F = ctx.do('FrameE', ctx.nv.FrameE, name=key)
    same_parameters(ctx, 'frame by name', F.a, F.f, i, key)
    where(ctx, rng, F, TABLE[i][0], 1 / TABLE[i][1], 'e')


def unknown(ctx, rng, idx):
    i, name = ALL[rng.integers(len(ALL))]
    how = idx % 8
    if how == 0 or not isinstance(name, str):
        key = (0, 20, -1, 100, 2.5, None, '', (), 'earth', 'wgs', '18', '1')[rng.integers(12)]
    else:
        s = list(name)
        j = int(rng.integers(len(s)))
        if how < 4:
            s[j] = chr(ord('a') + int(rng.integers(26)))
        elif how < 6:
            s.insert(j, '0123456789-_x'[rng.integers(13)])
        else:
            s.pop(j)
        key = ''.join(s)
        if key.lower().replace(' ', '') in KNOWN:
            return
    ctx.raises('unknown ellipsoid', KeyError, ctx.nv.get_ellipsoid, key)
    ctx.raises('unknown ellipsoid', KeyError, ctx.nv.FrameE, None, None, key)
    if rng.integers(2):
        ctx.raises('unknown ellipsoid', KeyError, ctx.nv.FrameE, *((6.4e6, None, key) if rng.integers(2) else (None, 0, key)))


def where(ctx, rng, F, a, f, axes):
    """the frame judged by where it puts points"""
    R = ref.R_AXES[axes]
    k = int(rng.integers(1, 4))
    lat, lon, z = gen.lat(rng, k), gen.lon(rng, k), gen.depth(rng, k, a, deep=False)
    n = ref.latlon2n(lat, lon, R)
    p = ctx.do('to_ecef_vector', ctx.do('F.GeoPoint', F.GeoPoint, lat, lon, z).to_ecef_vector).pvector
    ctx.close('frame is used', p, ref.n2p(n, z, a, f, R), 32 * EPS * (a + np.abs(z)), (a, f, axes, lat, lon, z))
    v = ctx.do('F.GeoPoint', F.GeoPoint, lat, lon).to_nvector().normal
    ctx.close('axes are used', v, n, 16 * EPS, (axes, lat, lon))
    s, _a, _b = ctx.do('inverse', F.inverse, 0, 0, 0, 90, degrees=True)
    ctx.close('quarter of the equator', s, PI / 2 * a, 8 * EPS * a, (a, f), shape=False)


def frames(ctx, rng, idx):
    """explicit parameters replace those of the named ellipsoid, alone or together"""
    i, name = ALL[rng.integers(len(ALL))]
    while not isinstance(name, str):
        i, name = ALL[rng.integers(len(ALL))]
    a, f = gen.ellipsoid(rng)
    kw = {}
    want = [TABLE[18][0], 1 / TABLE[18][1], 'e']
    if rng.integers(2):
        kw['name'] = spell(rng, name)
        want[0], want[1] = TABLE[i][0], 1 / TABLE[i][1]
    which = idx % 4
    if which & 1:
        kw['a'] = a
        want[0] = a
    if which & 2:
        f = (f, 0, 0.0)[rng.integers(3)]
        kw['f'] = f
        want[1] = f
    if rng.integers(2):
        kw['axes'] = want[2] = ('e', 'E')[rng.integers(2)]
    if rng.integers(3) == 0:        # by position
        F = ctx.do('FrameE', ctx.nv.FrameE, kw.get('a'), kw.get('f'), kw.get('name', 'WGS84'), kw.get('axes', 'e'))
    else:
        F = ctx.do('FrameE', ctx.nv.FrameE, **kw)
    info = (kw, want)
    ctx.close('frame parameters', np.array([F.a, F.f], dtype=float), np.array(want[:2]),
              np.array([2 * EPS * want[0], 2 * EPS]), info)
    ctx.true('frame axes', np.array_equal(F.R_Ee, ref.R_AXES[want[2]]), info)
    where(ctx, rng, F, *want)
    ctx.tag('a, f given: {}{}'.format('a' * (which & 1), 'f' * (which >> 1)))


def made_through(ctx, rng, idx):
    """points made through a frame belong to it, whatever else is given"""
    nv = ctx.nv
    a, f = gen.ellipsoid(rng)
    F = ctx.do('FrameE', nv.FrameE, a=a, f=f, axes=('e', 'E')[rng.integers(2)])
    other = ctx.do('FrameE', nv.FrameE, a=1.0)
    kw = {} if rng.integers(2) else {'frame': other}
    k = gen.ncols(rng)
    n, z = gen.nvec(rng, k), gen.depth(rng, k, a)
    lat, lon = gen.lat(rng, k), gen.lon(rng, k)
    deg = bool(rng.integers(2))
    p = n * a
    g = ctx.do('F.GeoPoint', F.GeoPoint, *((np.rad2deg(lat), np.rad2deg(lon)) if deg else (lat, lon)), z=z, degrees=deg, **kw)
    v = ctx.do('F.Nvector', F.Nvector, n, z, **kw)
    e = ctx.do('F.ECEFvector', F.ECEFvector, p, **kw)
    for X in (g, v, e):
        ctx.true('belongs to the frame', X.frame is F, X)
    ctx.close('coordinates', g.latitude, lat, 4 * EPS, (lat, deg))
    ctx.close('coordinates', g.longitude, lon, 8 * EPS, (lon, deg))
    ctx.true('coordinates', np.array_equal(np.broadcast_to(g.z, z.shape), z), (g, z))
    ctx.true('coordinates', np.array_equal(v.normal, n) and np.array_equal(v.z, z) and np.array_equal(e.pvector, p))
    P = make_point(ctx, KINDS[rng.integers(3)], F, n, z, F.R_Ee, a, f)
    for L in (ctx.do('FrameN', nv.FrameN, P), ctx.do('FrameL', nv.FrameL, P, 0.1), ctx.do('FrameB', nv.FrameB, P)):
        d = ctx.do('Pvector', L.Pvector, p)
        ctx.true('belongs to the local frame', d.frame is L and L.nvector.frame is F, d)
        ctx.true('belongs to the local frame', d.to_ecef_vector().frame is F, d)


def default_frame(ctx, rng, idx):
    """without a frame: WGS-84, z axis to the north pole; every time"""
    nv = ctx.nv
    k = gen.ncols(rng)
    n, z = gen.nvec(rng, k), gen.depth(rng, k, deep=False)
    a, f = gen.WGS84
    lat, lon = (np.asarray(x).astype(float) for x in ref.n2latlon(n, ref.R_DEFAULT))
    want = ref.n2p(n, z, a, f, ref.R_DEFAULT)
    other = ctx.do('FrameE', nv.FrameE, a=3.0, f=0.1, axes='E')       # changes nothing
    ctx.true('another frame', other.a == 3.0)
    for P in (ctx.do('GeoPoint', nv.GeoPoint, lat, lon, z), ctx.do('Nvector', nv.Nvector, n, z)):
        ctx.close('default frame', P.to_ecef_vector().pvector, want, 32 * EPS * (a + np.abs(z)), P)
        ctx.true('default frame', P.frame == nv.FrameE(), P)
    E = ctx.do('ECEFvector', nv.ECEFvector, want.astype(float), scalar=False)
    ctx.close('default frame', E.to_nvector().z, z, 32 * EPS * (a + np.abs(z)), E)
    ctx.close('default ellipsoid', ctx.do('n_EB_E2p_EB_E', nv.n_EB_E2p_EB_E, n, z), want, 32 * EPS * (a + np.abs(z)))
    F = ctx.do('FrameE', nv.FrameE)
    same_parameters(ctx, 'default frame parameters', F.a, F.f, 18, None)


def matrices(ctx, rng, idx):
    ax = ('e', 'E')[idx % 2]
    M = ctx.do('E_rotation', ctx.nv.E_rotation, ax)
    ctx.true('E_rotation', np.array_equal(M, ref.R_AXES[ax]), M)
    M = ctx.do('E_rotation', ctx.nv.E_rotation)
    ctx.true('E_rotation', np.array_equal(M, ref.R_AXES['e']), M)


WORKLOADS = [('lookup', lookup, 2000, 20000), ('unknown', unknown, 1500, 30000), ('frames', frames, 1500, 30000),
             ('made_through', made_through, 600, 10000), ('default_frame', default_frame, 300, 5000),
             ('matrices', matrices, 16, 16)]
REQUIRE = ['ellipsoid', 'frame by name', 'unknown ellipsoid', 'frame parameters', 'frame is used', 'frame axes',
           'belongs to the frame', 'default frame']
