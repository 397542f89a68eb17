"""C36: the printed form of objects"""
import copy

import numpy as np

from rtm import gen, ref
from rtm.props.c21 import image
from rtm.props.common import KINDS, frame, make_point

TECHNIQUE = ('round-trip monitor: the printed form is evaluated by a recorder and its names and numbers compared bit for '
             'bit with the attributes, under random numpy print options; the object built from them against the original')

ATTRIBUTES = {
    'FrameE': ('a', 'f', 'R_Ee'),
    'GeoPoint': ('latitude', 'longitude', 'z', 'frame'),
    'Nvector': ('normal', 'z', 'frame'),
    'ECEFvector': ('pvector', 'frame', 'scalar'),
    'Pvector': ('pvector', 'frame', 'scalar'),
    'FrameN': ('nvector',),
    'FrameL': ('nvector', 'wander_azimuth'),
    'FrameB': ('nvector', 'yaw', 'pitch', 'roll'),
}


class Printed(object):
    """class name and arguments, as printed"""

    def __init__(self, name, args, kwds):
        self.name, self.args, self.kwds = name, args, kwds


def recorder(name):
    return lambda *args, **kwds: Printed(name, args, kwds)


SPACE = {name: recorder(name) for name in ATTRIBUTES}
SPACE.update(nan=np.nan, inf=np.inf, array=np.array, np=np, float64=np.float64, int64=np.int64)
SPACE['__builtins__'] = {}


def same_bits(x, y):
    """the same numbers, signs of zeros included"""
    x, y = np.asarray(x), np.asarray(y)
    if x.shape != y.shape or x.dtype.kind not in 'fiub':
        return False
    if x.dtype.kind == 'f' or y.dtype.kind == 'f':
        x, y = x.astype(float), y.astype(float)
        return bool(np.all(((x == y) & (np.signbit(x) == np.signbit(y))) | (np.isnan(x) & np.isnan(y))))
    return bool(np.array_equal(x, y))


def compare(ctx, shown, obj, label):
    """what is printed against the attributes"""
    name = type(obj).__name__
    ctx.true('the class is named', isinstance(shown, Printed) and shown.name == name, (label, shown))
    for attr in ATTRIBUTES[name]:
        ctx.true('all attributes are printed', attr in shown.kwds, (label, name, attr, shown.kwds))
        value, own = shown.kwds[attr], getattr(obj, attr)
        if isinstance(value, Printed) or type(own).__name__ in ATTRIBUTES:
            compare(ctx, value, own, label)
        elif attr == 'scalar':
            ctx.eq('scalar is printed', bool(value), bool(own), label)
        else:
            ctx.true('numbers are printed in full', same_bits(value, own), (name, attr, value, own))


def build(nv, p):
    """an object from what was printed"""
    if not isinstance(p, Printed):
        return np.array(p) if isinstance(p, (list, tuple)) else p
    kw = {k: build(nv, v) for k, v in p.kwds.items() if k in ATTRIBUTES[p.name]}
    if p.name == 'FrameE':
        axes = [ax for ax in ('e', 'E') if np.array_equal(ref.R_AXES[ax], kw['R_Ee'])]
        return nv.FrameE(a=kw['a'], f=kw['f'], axes=axes[0])
    if p.name in ('FrameN', 'FrameL', 'FrameB'):
        kw['point'] = kw.pop('nvector')
    return getattr(nv, p.name)(**kw)


def options(rng):
    return dict(precision=int(rng.choice([1, 3, 8, 20])), threshold=int(rng.choice([0, 3, 1000])),
                edgeitems=int(rng.choice([1, 3])), linewidth=int(rng.choice([20, 75, 1000])),
                suppress=bool(rng.integers(2)), sign=str(rng.choice(['-', '+', ' '])),
                nanstr=str(rng.choice(['nan', 'NA'])), infstr=str(rng.choice(['inf', 'oo'])),
                floatmode=str(rng.choice(['fixed', 'unique', 'maxprec'])))


def values(rng, k, a):
    """coordinates of many magnitudes and forms"""
    form = rng.integers(6)
    lat, lon, z = gen.lat(rng, k), gen.lon(rng, k), gen.depth(rng, k, a)
    if form == 0:
        lat, lon, z = lat * 10.0 ** rng.integers(-300, 0), lon * 10.0 ** rng.integers(-20, 0), z * 10.0 ** rng.integers(-12, 12)
    elif form == 1:
        lat, lon, z = np.round(lat), np.round(lon), np.round(z)
    elif form == 2:
        lat, lon, z = lat * 0 - 0.0, -lon * 0, z * 0
    elif form == 3:
        lat, lon, z = np.round(lat).astype(int), np.round(lon).astype(int), np.round(z).astype(int)
    elif form == 4 and k > 1:
        lat = np.where(rng.random(k) < 0.5, np.nan, lat)
    if k == 1:
        how = rng.integers(3)
        if how == 0:
            lat, lon, z = (v[0].item() for v in (lat, lon, z))
        elif how == 1:
            lat, lon, z = (v[0] for v in (lat, lon, z))
    return lat, lon, z


def things(ctx, rng):
    nv = ctx.nv
    fr, a, f, R, ax = frame(ctx, rng)
    k = int(rng.choice([1, 1, 2, 3, 7, 40, 300, 1500], p=[.2, .1, .2, .15, .1, .1, .1, .05]))
    out = []
    if rng.integers(2):
        lat, lon, z = values(rng, k, a)
        out.append(ctx.do('GeoPoint', nv.GeoPoint, lat, lon, z, frame=fr))
    n, m = gen.generic_pair(rng, k, 0.05, 2.5)
    z = gen.depth(rng, k, a)
    scalar = k == 1 and bool(rng.integers(2))
    A = make_point(ctx, KINDS[rng.integers(3)], fr, n, z, R, a, f, scalar)
    B = make_point(ctx, KINDS[rng.integers(3)], fr, m, z * 0.5, R, a, f, scalar)
    ang = [gen.angle(rng, k) for _ in range(4)]
    if scalar or rng.integers(3) == 0:
        ang = [float(v[0]) for v in ang]
    L = ctx.do('FrameL', nv.FrameL, A, ang[0])
    F = ctx.do('FrameB', nv.FrameB, A, *ang[1:])
    d = ctx.do('delta_E', nv.delta_E, A, B)
    out += [fr, A, B, L, F, d, ctx.do('FrameN', nv.FrameN, A), ctx.do('delta_L', nv.delta_L, A, B, ang[0]),
            ctx.do('change_frame', d.change_frame, F), ctx.do('to_geo_point', B.to_geo_point),
            ctx.do('to_nvector', B.to_nvector), ctx.do('Pvector', nv.Pvector, np.array(d.pvector), F)]
    return out


def printed(ctx, rng, idx):
    nv = ctx.nv
    for obj in things(ctx, rng):
        name = type(obj).__name__
        img = image(obj)
        with np.printoptions(**options(rng)):
            text = ctx.do('repr', repr, obj)
            other = ctx.do('str', str, obj)
        ctx.eq('printing changes nothing', image(obj), img, name)
        ctx.eq('print options do not matter', ctx.do('repr', repr, obj), text, name)
        for t in (text, other):
            try:
                shown = eval(t, dict(SPACE))
            except Exception as error:
                ctx.true('the printed form can be evaluated', False, (name, t[:500], repr(error)))
            compare(ctx, shown, obj, name)
        twin = ctx.do('copy', copy.deepcopy, obj)
        ctx.eq('a copy prints the same', ctx.do('repr', repr, twin), text, name)
        new = ctx.do('build ' + name, build, nv, eval(text, dict(SPACE)))
        if 'nan' not in text:
            ctx.true('the object read back is equal', bool(new == obj) and bool(obj == new), (text[:500], repr(new)[:500]))
        ctx.eq('the object read back prints the same numbers',
               skeleton(eval(ctx.do('repr', repr, new), dict(SPACE))), skeleton(eval(text, dict(SPACE))), name)
        ctx.tag(name)


def skeleton(p):
    if isinstance(p, Printed):
        return (p.name,) + tuple((k, skeleton(p.kwds[k])) for k in ATTRIBUTES[p.name])
    return np.asarray(p).astype(float).ravel().tobytes()


WORKLOADS = [('printed', printed, 150, 5000)]
REQUIRE = ['the class is named', 'numbers are printed in full', 'the object read back is equal', 'all attributes are printed',
           'print options do not matter', 'printing changes nothing', 'the object read back prints the same numbers']
