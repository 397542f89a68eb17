"""C23: equality"""
import copy

import numpy as np

from rtm import catalog, gen, ref
from rtm.props.common import EPS, PI, to_double

TECHNIQUE = ('metamorphic monitor on ==, != : identical, rounded, copied and turned coordinates must be equal, any '
             'coordinate changed by clearly more than rounding must not; hostile operands must give False')


class Spec(object):
    """coordinates from which an object is built"""

    def __init__(self, cls, coords, frame):
        self.cls = cls
        self.coords = coords
        self.frame = frame          # a, f, axes, or nested Spec-like for local frames

    def replace(self, **kw):
        out = Spec(self.cls, dict(self.coords), dict(self.frame))
        for k, v in kw.items():
            if k in out.frame:
                out.frame[k] = v
            else:
                out.coords[k] = v
        return out

    def make(self, ctx):
        nv = ctx.nv
        c, fr = self.coords, self.frame
        F = ctx.do('FrameE', nv.FrameE, a=fr['a'], f=fr['f'], axes=fr['axes'])
        R = ref.R_AXES[fr['axes']]
        if self.cls == 'FrameE':
            return F
        if self.cls == 'GeoPoint':
            return ctx.do('GeoPoint', nv.GeoPoint, c['lat'], c['lon'], c['z'], frame=F)
        if self.cls == 'Nvector':
            return ctx.do('Nvector', F.Nvector, c['n'], c['z'])
        if self.cls == 'ECEFvector':
            return ctx.do('ECEFvector', F.ECEFvector, c['p'])
        if self.cls == 'Pvector':
            return ctx.do('Pvector', nv.FrameN(F.Nvector(c['n'], c['z'])).Pvector, c['p'])
        v = F.Nvector(c['n'], c['z'])
        if self.cls == 'FrameN':
            return ctx.do('FrameN', nv.FrameN, v)
        if self.cls == 'FrameL':
            return ctx.do('FrameL', nv.FrameL, v, wander_azimuth=c['wa'])
        return ctx.do('FrameB', nv.FrameB, v, yaw=c['yaw'], pitch=c['pitch'], roll=c['roll'])


CLASSES = ('GeoPoint', 'Nvector', 'ECEFvector', 'Pvector', 'FrameE', 'FrameN', 'FrameL', 'FrameB')
# coordinates and the sizes of differences: attitude and directions absolute, others relative
COORDS = dict(GeoPoint='lat lon z', Nvector='n z', ECEFvector='p', Pvector='p n', FrameE='', FrameN='n',
              FrameL='n wa', FrameB='n z yaw pitch roll')


def spec(rng, cls=None, k=None):
    cls = CLASSES[rng.integers(len(CLASSES))] if cls is None else cls
    a, f = gen.ellipsoid(rng)
    k = int(rng.choice([1, 1, 2, 3, 5])) if k is None else k
    n = catalog.directions(rng, k, 0.1)
    axes = ('e', 'E')[rng.integers(2)]
    ang = rng.uniform(-1.4, 1.4, (4, k))
    # special values: zero depth, the zero meridian, the equator, the antimeridian, the poles
    lat, lon = gen.lat(rng, k), gen.lon(rng, k, turns=True)
    z = gen.depth(rng, k, a)
    wa, yaw, pitch, roll = ang
    if rng.integers(4) == 0:
        yaw = pitch = roll = wa = np.zeros(k)
    if k == 1 and rng.integers(2):
        lat, lon, z, wa, yaw, pitch, roll = (float(x[0]) for x in (lat, lon, z, wa, yaw, pitch, roll))
    coords = dict(lat=lat, lon=lon, z=z, n=np.ascontiguousarray(ref.R_AXES[axes].T @ n),
                  p=rng.normal(size=(3, k)) * a, wa=wa, yaw=yaw, pitch=pitch, roll=roll)
    return Spec(cls, coords, dict(a=a, f=f, axes=axes))


def verdict(ctx, name, x, y, want, info=None):
    for p, q in ((x, y), (y, x)):
        eq, error = ctx.attempt('==', lambda: p == q)
        ctx.eq('comparison never raises', error, None, (p, q))
        ne, error = ctx.attempt('!=', lambda: p != q)
        ctx.eq('comparison never raises', error, None, (p, q))
        ctx.true('comparison gives a truth value', isinstance(eq, (bool, np.bool_)) and isinstance(ne, (bool, np.bool_)),
                 (eq, ne, p, q))
        ctx.eq('!= is the negation', bool(ne), not eq, (p, q))
        ctx.eq(name, bool(eq), want, (p, q, info))


def jiggle(rng, x, ulps=4):
    """other roundings of the same number"""
    x = np.array(x, dtype=float)
    return x * (1 + rng.integers(-ulps, ulps + 1, x.shape) * EPS)


def equal(ctx, rng, idx):
    s = spec(rng, CLASSES[idx % len(CLASSES)])
    x = s.make(ctx)
    verdict(ctx, 'reflexive', x, x, True)
    verdict(ctx, 'independent of identity', x, s.make(ctx), True)
    verdict(ctx, 'independent of identity', x, copy.deepcopy(x), True)
    t = s.replace()
    for name in COORDS[s.cls].split():
        v = s.coords[name]
        w = jiggle(rng, v, 1 if name in ('lat', 'lon') else 4)
        if name in ('lat', 'lon') and rng.integers(2):
            w = np.asarray(v) + 2 * PI * np.where(np.abs(v) <= PI, rng.integers(-3, 4, np.shape(v)), 0)
        t.coords[name] = float(w) if isinstance(v, float) else w
    if rng.integers(2):
        t.frame.update(a=float(jiggle(rng, s.frame['a'])), f=float(jiggle(rng, s.frame['f'])))
    verdict(ctx, 'equal up to rounding', x, t.make(ctx), True, (s.coords, t.coords))
    ctx.tag(s.cls)
    if s.cls == 'GeoPoint':
        # many turns, of angles to which they can be added without any rounding
        lat, lon = [np.where(np.abs(v) <= PI, np.round(np.asarray(v) * 2.0 ** 40) / 2.0 ** 40, 0.5)
                    for v in (s.coords['lat'], s.coords['lon'])]
        a = s.replace(lat=lat, lon=lon)
        turns = rng.choice([-8, -4, 4, 8], np.shape(lon)) if rng.integers(2) else int(rng.choice([-8, -4, 4, 8]))
        b = a.replace(lon=lon + turns * 2 * PI)
        verdict(ctx, 'equal up to many turns', a.make(ctx), b.make(ctx), True, (a.coords, b.coords))


def changed(rng, s):
    """(spec differing in one coordinate of one column, what) or None"""
    names = COORDS[s.cls].split()
    fr = rng.integers(3) == 0 or not names
    size = 10.0 ** -rng.uniform(0, 8.5) * gen.sign(rng, 1)[0]
    if fr:
        what = ('a', 'f', 'axes')[rng.integers(3)]
        if what == 'axes':
            new = dict(axes='E' if s.frame['axes'] == 'e' else 'e')
        elif what == 'a':
            new = dict(a=float(s.frame['a'] * (1 + size / 2)))
        else:
            new = dict(f=float(s.frame['f'] * (1 + size / 2) if s.frame['f'] > 1e-4 else s.frame['f'] + abs(size) / 100))
        return s.replace(**new), what
    what = names[rng.integers(len(names))]
    old = s.coords[what]
    v = np.array(old, dtype=float)
    if rng.integers(5) == 0:        # the opposite, or the same values in the other order
        w = -v if rng.integers(2) else v[..., ::-1].copy() if v.ndim and what != 'n' else -v
        if what == 'n':
            w = v * np.where(np.arange(3) == rng.integers(3), -1, 1)[:, None]
        clear = np.abs(np.sin(w - v)) if what in ('lat', 'lon', 'wa', 'yaw', 'pitch', 'roll') else np.abs(w - v)
        if np.max(clear) > 1e-8 * (1 if what != 'p' else np.abs(v).max()):
            return s.replace(**{what: w if v.ndim else float(w)}), what + ' mirrored'
    if what in ('lat', 'lon', 'wa', 'yaw', 'pitch', 'roll'):
        d = size
    elif what == 'z':
        j0 = rng.integers(v.shape[-1]) if v.ndim else None
        z0 = v if j0 is None else v[j0]
        d = size * (abs(z0) or s.frame['a'])
        d = d if abs(d) > 1e-11 else 1e-11
        if j0 is not None:
            v[j0] += d
            return s.replace(z=v), what
    elif what == 'p':
        i, j = rng.integers(3), rng.integers(v.shape[1])
        v[i, j] += np.sign(size) * max(abs(size * v[i, j]), 1e-11)
        return s.replace(p=v), what
    else:
        j = rng.integers(v.shape[1])
        v[:, j] = to_double(gen.near(rng, v[:, [j]], np.array([abs(size)])))[:, 0]
        return s.replace(n=v), what
    if v.ndim:
        v[rng.integers(v.shape[0])] += d
        return s.replace(**{what: v}), what
    return s.replace(**{what: float(v + d)}), what


def different(ctx, rng, idx):
    s = spec(rng, CLASSES[idx % len(CLASSES)])
    t, what = changed(rng, s)
    x, y = s.make(ctx), t.make(ctx)
    verdict(ctx, 'different', x, y, False, (what, s.coords, t.coords))
    ctx.tag('{}: {}'.format(s.cls, what))


class Hostile(object):
    """has some attributes of a position"""
    latitude = 0.3
    z = 'deep'
    frame = None
    pvector = 'p'
    nvector = 5


OTHERS = [lambda: None, lambda: 5, lambda: 0.0, lambda: float('nan'), lambda: 'GeoPoint', lambda: b'', lambda: (),
          lambda: [1, 2, 3], lambda: {}, lambda: object(), lambda: int, lambda: Hostile(), lambda: 1j, lambda: True,
          lambda: Ellipsis, lambda: NotImplemented, lambda: lambda: 3, lambda: {1, 2}]


def other_things(ctx, rng, idx):
    s = spec(rng, CLASSES[idx % len(CLASSES)])
    x = s.make(ctx)
    for other in OTHERS:
        y = other()
        for eq, want in ((lambda: x == y, False), (lambda: x != y, True), (lambda: y == x, False), (lambda: y != x, True)):
            got, error = ctx.attempt('comparison', eq)
            ctx.eq('comparison with other things never raises', error, None, (x, y))
            ctx.eq('unequal to other things', bool(got), want, (x, y))
    for y in (np.array([1, 2, 3]), np.zeros((3, 1)), np.float64(1), ctx.nv, ctx.nv.FrameE, ctx.nv.GeoPoint):
        got, error = ctx.attempt('comparison', lambda: x == y)
        ctx.eq('comparison with other things never raises', error, None, (x, y))
        ctx.true('unequal to other things', not np.any(got), (x, y))
    # lists with objects in them
    got, error = ctx.attempt('in', lambda: x in [None, 3, 'a', y])
    ctx.eq('comparison with other things never raises', error, None, x)
    ctx.eq('unequal to other things', got, False, x)
    got, error = ctx.attempt('in', lambda: s.make(ctx) in [None, 3, 'a', x])
    ctx.eq('found in a list', (got, error), (True, None), x)


def same_frame(a, b):
    return {a, b} in ({'FrameN', 'FrameL'}, {'FrameN', 'FrameB'}, {'FrameL', 'FrameB'})


def kinds(ctx, rng, idx):
    """objects of different kinds, and of different sizes"""
    i = idx % len(CLASSES)
    k = int(rng.choice([1, 2, 3]))
    s = spec(rng, CLASSES[i], k)
    x = s.make(ctx)
    for cls in CLASSES:
        if cls == s.cls or same_frame(cls, s.cls) or {cls, s.cls} == {'ECEFvector', 'Pvector'}:
            continue
        y = Spec(cls, s.coords, s.frame).make(ctx)
        verdict(ctx, 'kinds are unequal', x, y, False)
    y = Spec('ECEFvector', s.coords, s.frame).make(ctx)
    z = Spec('Pvector', s.coords, s.frame).make(ctx)
    verdict(ctx, 'vectors in different frames are unequal', y, z, False)
    t = spec(rng, s.cls, k + 1 + int(rng.integers(3)))
    if s.cls != 'FrameE':
        t.frame = s.frame
        verdict(ctx, 'other number of positions', x, t.make(ctx), False)


def not_numbers(ctx, rng, idx):
    """NaN and infinite coordinates: a truth value, and never equal to a finite position"""
    s = spec(rng, CLASSES[idx % 4])
    t = s.replace()
    name = COORDS[s.cls].split()[rng.integers(len(COORDS[s.cls].split()))]
    bad = rng.choice([np.nan, np.inf, -np.inf])
    v = np.array(s.coords[name], dtype=float)
    if v.ndim == 0:
        t.coords[name] = float(bad)
    else:
        v[..., rng.integers(v.shape[-1])] = bad
        t.coords[name] = v
    x, y = s.make(ctx), t.make(ctx)
    verdict(ctx, 'different from NaN and infinity', x, y, False, (name, bad))
    verdict(ctx, 'reflexive', y, y, True)


def local_kinds(ctx, rng, idx):
    """N and L frames of the same position: equal when the wander azimuth is zero, either way round"""
    s = spec(rng, 'FrameN', 1)
    x = s.make(ctx)
    wa = rng.choice([0.0, 1e-3, 1.0])
    y = Spec('FrameL', dict(s.coords, wa=wa), s.frame).make(ctx)
    a, _e = ctx.attempt('==', lambda: x == y)
    b, _e = ctx.attempt('==', lambda: y == x)
    ctx.eq('N and L compare the same either way', bool(a), bool(b), (x, y))
    ctx.eq('N and L', bool(a), wa == 0, (x, y))


WORKLOADS = [('equal', equal, 3000, 50000), ('different', different, 5000, 100000),
             ('other_things', other_things, 400, 2000), ('kinds', kinds, 500, 8000),
             ('not_numbers', not_numbers, 600, 10000), ('local_kinds', local_kinds, 200, 3000)]
REQUIRE = ['equal up to rounding', 'different', 'unequal to other things', 'reflexive', 'kinds are unequal',
           'other number of positions']
