"""C41: objects of classes derived by clients are as good as the library's own"""
import copy
import warnings

import numpy as np

from rtm import catalog
from rtm.props.c18 import environment, sister
from rtm.props.c21 import cast, families, thunks
from rtm.props.common import KINDS

TECHNIQUE = ('differential monitor: the same questions asked to objects of the library and to objects of classes derived from '
             'its classes (with other constructors, extra attributes, computed coordinates, overridden methods that call the '
             'original ones), and numbers, arrays and names of derived classes against plain ones')
TOL = 1e-11
FRAMES = ('FrameE', 'FrameN', 'FrameL', 'FrameB')
NAMES = ('GeoPoint', 'Nvector', 'ECEFvector', 'Pvector', 'GeoPath') + FRAMES
FIELDS = dict(GeoPoint=('latitude', 'longitude', 'z', 'frame'), Nvector=('normal', 'z', 'frame'),
              ECEFvector=('pvector', 'frame', 'scalar'), Pvector=('pvector', 'frame', 'scalar'), GeoPath=('point_a', 'point_b'),
              FrameE=('a', 'f', 'name', 'R_Ee'), FrameN=('nvector',), FrameL=('nvector', 'wander_azimuth'),
              FrameB=('nvector', 'yaw', 'pitch', 'roll'))
HOW = ('plain', 'extra', 'computed', 'logging', 'slots', 'factory', 'strict', 'twice')


def base_name(obj):
    for c in type(obj).__mro__:
        if c.__module__.startswith('nvector') and c.__name__ in NAMES:
            return c.__name__


def values(o):
    """the arguments of the constructor that make this object"""
    t = base_name(o)
    if t == 'FrameE':
        return dict(a=o.a, f=o.f, name=o.name, axes='e' if o.R_Ee[0, 2] == 1 else 'E')
    if t in ('FrameN', 'FrameL', 'FrameB'):
        out = {n: getattr(o, n) for n in FIELDS[t][1:]}
        out['point'] = o.nvector
        return out
    return {n: getattr(o, n) for n in FIELDS[t]}


def plain(base):
    class Mine(base):
        pass
    return Mine, lambda kw: Mine(**kw)


def extra(base):
    """other constructor, more attributes"""
    class Mine(base):
        count = 0

        def __init__(self, label, given, unit='m'):
            self._label = label
            super(Mine, self).__init__(**given)
            self._unit = unit
            self._history = [label]
            Mine.count += 1

        @property
        def label(self):
            return self._label
    return Mine, lambda kw: Mine('a label', kw)


def computed(base):
    """attributes are computed when asked for"""
    name = base.__name__

    class Mine(base):
        def __init__(self, given):
            object.__setattr__(self, '_given', base(**given))
            super(Mine, self).__init__(**given)

    def forget(self, value):
        pass
    for field in FIELDS[name]:
        setattr(Mine, field, property(lambda self, field=field: getattr(self._given, field), forget))
    return Mine, Mine


def logging(base):
    """every public method and property calls the original one"""
    class Mine(base):
        log = []

        def __init__(self, *args, **kwds):
            self.log.append('__init__')
            super(Mine, self).__init__(*args, **kwds)

    def method(n):
        def call(self, *args, **kwds):
            self.log.append(n)
            return getattr(super(Mine, self), n)(*args, **kwds)
        return call

    def prop(n):
        def get(self):
            self.log.append(n)
            return getattr(super(Mine, self), n)
        return property(get)
    for n in dir(base):
        if n.startswith('_') and n not in ('__eq__', '__ne__', '__add__', '__sub__', '__neg__', '__mul__', '__repr__'):
            continue
        what = getattr(base, n)
        if isinstance(what, property):
            setattr(Mine, n, prop(n))
        elif callable(what):
            setattr(Mine, n, method(n))
    return Mine, lambda kw: Mine(**kw)


def slots(base):
    """more attributes, in slots; can be hashed"""
    class Mine(base):
        __slots__ = ('mark', 'other')

        def __hash__(self):
            return 7

        def __init__(self, **kwds):
            self.mark = 1
            super(Mine, self).__init__(**kwds)
    return Mine, lambda kw: Mine(**kw)


def factory(base):
    """several base classes, and a method to make alike ones"""
    class Mixin(object):
        def __init__(self, *args, **kwds):
            self._mixed = True
            super(Mixin, self).__init__(*args, **kwds)

        @classmethod
        def make(cls, **kwds):
            return cls(**kwds)

    class Mine(Mixin, base):
        pass
    return Mine, lambda kw: Mine.make(**kw)


def strict(base):
    """the coordinates are set once and for all"""
    fixed = FIELDS[base.__name__]

    class Mine(base):
        _done = False

        def __init__(self, *args, **kwds):
            super(Mine, self).__init__(*args, **kwds)
            self._done = True

        def __setattr__(self, name, value):
            if self._done and name in fixed:
                raise RuntimeError('{} is assigned'.format(name))
            super(Mine, self).__setattr__(name, value)
    return Mine, lambda kw: Mine(**kw)


def twice(base):
    class Parent(base):
        pass

    class Mine(Parent):
        def __init__(self, **kwds):
            Parent.__init__(self, **kwds)
    return Mine, lambda kw: Mine(**kw)


MAKERS = dict(plain=plain, extra=extra, computed=computed, logging=logging, slots=slots, factory=factory, strict=strict,
              twice=twice)


def derive(nv, s, rng, how):
    """the same cast, some or all objects are of derived classes; the arrays are copies; the frames of objects are derived too"""
    done = {}
    share = 1.0 if rng.integers(2) else 0.5
    sure = rng.integers(2)
    makers = {n: MAKERS[how or HOW[rng.integers(len(HOW))]](getattr(nv, n)) for n in NAMES}

    def one(o):
        if id(o) in done:
            return done[id(o)][1]
        t = base_name(o)
        if t is None:
            new = o.copy() if isinstance(o, np.ndarray) else o
        else:
            given = {n: one(v) for n, v in values(o).items()}
            if (t == 'FrameE' and sure) or rng.random() < share:
                new = makers[t][1](given)
            else:
                new = getattr(nv, t)(**given)
        done[id(o)] = (o, new)
        return new
    return {n: one(o) for n, o in s.items()}, {n: m[0] for n, m in makers.items()}


def numbers(obj, depth=0):
    """all numbers in a result; derived or not"""
    if isinstance(obj, str):
        return [obj]
    if isinstance(obj, (tuple, list)):
        return [y for o in obj for y in numbers(o, depth)]
    t = base_name(obj)
    if t:
        return [t] + [y for n in FIELDS[t] for y in numbers(getattr(obj, n), depth + 1)]
    return [np.array(obj)]


def agree(a, b, tol=TOL):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if isinstance(x, str) or isinstance(y, str):
            if x is not y and x != y:
                return False
            continue
        if x.shape != y.shape or x.dtype.kind != y.dtype.kind:
            return False
        if x.dtype.kind in 'fiu':
            x, y = x.astype(float), y.astype(float)
            scale = np.maximum(1, np.abs(np.where(np.isfinite(x), x, 0)).max() if x.size else 1)
            if not np.all((np.abs(x - y) <= tol * scale) | (np.isnan(x) & np.isnan(y)) | (x == y)):
                return False
        elif not np.array_equal(x, y):
            return False
    return True


def outcome(fn):
    with warnings.catch_warnings(record=True) as caught, np.errstate(all='ignore'):
        warnings.simplefilter('always')
        try:
            result = fn()
            told = numbers(result)
        except (ValueError, ZeroDivisionError, FloatingPointError, NotImplementedError) as error:
            result, told = None, [type(error).__name__, str(error)]
    kinds = sorted({w.category.__name__ for w in caught} - {'RuntimeWarning'})
    return result, told + kinds


def find_frames(obj):
    if isinstance(obj, (tuple, list)):
        return [f for o in obj for f in find_frames(o)]
    t = base_name(obj)
    if t in ('GeoPoint', 'Nvector', 'ECEFvector'):
        return [obj.frame]
    if t in ('FrameN', 'FrameL', 'FrameB'):
        return [obj.nvector.frame]
    return []


def derived(ctx, rng, idx):
    nv = ctx.nv
    k = int(rng.choice([1, 1, 2, 3]))
    kinds = [KINDS[i] for i in rng.integers(3, size=4)]
    s, _env = cast(ctx, rng, k, kinds)
    how = HOW[idx % len(HOW)] if rng.integers(4) else None
    mine, classes = derive(nv, s, rng, how)
    some = [int(i) for i in rng.choice(14, 4, replace=False)]

    def questions(s):
        fr, g, h, az = s['frame'], s['geo'], s['Q'], s['az']
        n = s['v'].normal
        out = thunks(nv, s) + [q for i in some for q in families(nv, s)[i]]
        out += [lambda: nv.FrameN(s['P']), lambda: nv.FrameL(h, az), lambda: nv.FrameB(g, az, 0.1),
                lambda: nv.GeoPath(g, h), lambda: fr.GeoPoint(az, az, degrees=True), lambda: nv.GeoPoint(az, az, frame=fr),
                lambda: nv.Nvector(n, frame=fr), lambda: s['v'] * s['v'],
                lambda: s['P'] == s['N'], lambda: s['N'] != s['L'], lambda: s['L'] == s['L'], lambda: s['path'] == s['path2'],
                lambda: nv.FrameB(s['P'], az) == s['B']]
        return out
    texts = set()
    for i, (a, b) in enumerate(zip(questions(s), questions(mine))):
        (ra, want), (rb, got) = outcome(a), outcome(b)
        if isinstance(ra, str):
            texts.add(i)
            continue
        ctx.true('derived objects answer alike', agree(got, want), (how, kinds, i, got, want))
        if how:
            ctx.tag(how)
        here = find_frames(rb)
        for f in here:
            if base_name(f) == 'FrameE' and isinstance(mine['frame'], classes['FrameE']):
                if any(f is o for o in (mine['frame'], mine['frame2'])):
                    ctx.true('results in the frame of the client', True)
                else:
                    ctx.true('results in the frame of the client', isinstance(f, classes['FrameE']), (how, kinds, i, type(f)))
    # derived and plain ones together
    for name in ('P', 'Q', 'C', 'v', 'geo', 'frame', 'N', 'L', 'B', 'd'):
        x, y = s[name], mine[name]
        eq, ne = (x == y, y == x), (x != y, y != x)
        ctx.true('derived equal to plain', all(eq) and not any(ne), (how, kinds, name, eq, ne))
        if how not in (None, 'computed'):
            text = repr(y)
            ctx.true('printed with the name of the class', text.startswith(type(y).__name__ + '('), (how, name, text))
            ctx.true('printed alike', strip(text) == strip(repr(x)), (how, name, text, repr(x)))
    mixed = dict(s)
    for name in s:
        if rng.integers(2) and base_name(s[name]):
            mixed[name] = mine[name]
    for i, (a, b) in enumerate(zip(questions(s), questions(mixed))):
        if i in texts:
            continue
        (_, want), (_, got) = outcome(a), outcome(b)
        ctx.true('derived and plain objects together', agree(got, want), (how, kinds, i, got, want))
    if how in ('plain', 'extra', 'factory', 'twice'):
        for name in ('P', 'Q', 'v', 'geo', 'frame', 'N', 'L', 'B', 'd'):
            for dup in (copy.copy, copy.deepcopy):
                new = dup(mine[name])
                ctx.true('copies of derived objects', type(new) is type(mine[name]) and new == s[name] and s[name] == new,
                         (how, name, dup))
    ctx.do('objects', dict, s)


def strip(text):
    for n in NAMES + ('Mine',):
        text = text.replace(n + '(', '(')
    return text


# --------------------------------------------------------------------------- numbers and names of derived classes
class Real(float):
    pass


class Unit(float):
    """a number that knows its unit"""
    def __new__(cls, value, unit='rad'):
        self = float.__new__(cls, value)
        self.unit = unit
        return self

    def __repr__(self):
        return '{} {}'.format(float(self), self.unit)
    __str__ = __repr__


class Int(int):
    pass


class Text(str):
    pass


class Array(np.ndarray):
    pass


class Named(np.ndarray):
    def __new__(cls, values, title='a title'):
        self = np.array(values).view(cls)
        self.title = title
        return self

    def __array_finalize__(self, obj):
        self.title = getattr(obj, 'title', None)


def other(rng, v):
    if isinstance(v, np.ndarray) and v.ndim:
        return [lambda: v.copy().view(Array), lambda: Named(v)][rng.integers(2)]()
    return [lambda: Real(v), lambda: Unit(v), lambda: np.float64(v)][rng.integers(3)]()


OPS = [o for o in catalog.OPS if o.vector]


def arrays(ctx, rng, idx):
    """arrays of derived classes"""
    o = OPS[idx % len(OPS)]
    env = environment(ctx, rng, o)
    k = int(rng.integers(1, 5))
    x = catalog.inputs(rng, o, k, env.a)
    want, _raw = o.run(env, x)
    y = {n: other(rng, v) if rng.integers(3) else v.copy() for n, v in x.items()}
    got, _raw = o.run(sister(env), y)
    catalog.compare(ctx, 'derived arrays', o, {n: np.asarray(v) for n, v in got.items()},
                    {n: np.asarray(v) for n, v in want.items()}, TOL, env.a, (k, {n: type(v) for n, v in y.items()}))


def names(ctx, rng, idx):
    """names and numbers of derived classes"""
    nv = ctx.nv
    T = Text
    x = [float(v) for v in rng.uniform(-1.3, 1.3, 8)]
    label = ('WGS84', 'wgs84', 'GRS80', 'ED50', 'International')[rng.integers(5)]
    axes = 'eE'[rng.integers(2)]
    method = ('greatcircle', 'euclidean', 'ellipsoid')[rng.integers(3)]
    kind = ('linear', 'nearest', 'quadratic', 'cubic')[rng.integers(4)]

    def ask(S, F, I, A):
        fr = nv.FrameE(name=S(label), axes=S(axes))
        p, q = fr.GeoPoint(F(x[0]), F(x[1]), F(x[2])), fr.GeoPoint(F(x[3]), F(x[4]), I(5))
        e = nv.FrameE(a=F(6.4e6), f=F(0.003), axes=S(axes))
        path = nv.GeoPath(p, q)
        t = A(np.linspace(0, 1, 7))
        n = nv.lat_lon2n_E(t, t * t)
        return [lambda: fr.a, lambda: fr.f, lambda: e.a, lambda: e.f, lambda: nv.E_rotation(S(axes)), lambda: p.to_nvector(),
                lambda: q.to_ecef_vector(), lambda: path.track_distance(method=S(method)),
                lambda: p.distance_and_azimuth(q, method=S('greatcircle' if method == 'euclidean' else method)),
                lambda: p.displace(F(1e5), F(x[5]), method=S('ellipsoid')), lambda: p.displace(I(1000), I(45), degrees=True),
                lambda: path.on_path(p, method=S('greatcircle')), lambda: path.cross_track_distance(p, method=S('euclidean')),
                lambda: nv.interp_nvectors(A([0.1, 0.4]), t, n, kind=S(kind), window_length=I(3), mode=S('nearest')),
                lambda: nv.FrameB(p, F(x[5]), F(x[6]), F(x[7])).R_EN, lambda: nv.FrameL(q, F(x[5])).R_EN, lambda: p == q,
                lambda: nv.zyx2R(F(x[5]), F(x[6]), F(x[7])), lambda: nv.lat_lon2n_E(F(x[0]), F(x[1])),
                lambda: nv.select_ellipsoid(S(label)), lambda: nv.rad(F(x[0]), I(3)), lambda: nv.deg(F(x[0]), A([1., 2.])),
                lambda: path.interpolate(F(0.3)), lambda: nv.nthroot(F(27.5), I(3)), lambda: nv.Nvector(A(n), z=t, frame=fr).mean(),
                lambda: nv.unit(A(n)), lambda: nv.mean_horizontal_position(A(n)), lambda: nv.R2zyx(A(nv.zyx2R(*x[:3])))]
    number = (Real, Unit)[rng.integers(2)]
    array = (lambda v: np.array(v).view(Array), Named)[rng.integers(2)]
    some = [c if rng.integers(4) else d for c, d in ((T, str), (number, float), (Int, int), (array, np.array))]
    for i, (a, b) in enumerate(zip(ask(str, float, int, np.array), ask(*some))):
        (_, want), (_, got) = outcome(a), outcome(b)
        ctx.true('derived numbers and names', agree(got, want), (i, some, label, axes, method, kind, got, want))
    ctx.do('names', lambda: None)


RULE = 'Relative difference below {}.'.format(TOL)
REQUIRE = ['derived objects answer alike', 'results in the frame of the client', 'derived equal to plain', 'printed alike',
           'derived and plain objects together', 'copies of derived objects', 'derived numbers and names'] + [
               'derived arrays: ' + o.name for o in OPS]
WORKLOADS = [('derived', derived, 400, 12000), ('arrays', arrays, 600, 15000), ('names', names, 200, 6000)]
