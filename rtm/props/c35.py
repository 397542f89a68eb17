"""C35: objects answer from their current contents"""
import copy
import warnings

import numpy as np

from rtm import gen, ref
from rtm.props.c21 import agree, cast, families, numbers, thunks
from rtm.props.common import to_double

TECHNIQUE = ('differential monitor: objects that were asked before and are then given other coordinates, depths, frames, '
             'end points or attitudes, against newly made objects with these contents')


def axes_of(R):
    for ax in ('e', 'E'):
        if np.array_equal(R, ref.R_AXES[ax]):
            return ax
    raise AssertionError('unknown axes')


def rebuild(nv, o):
    """a new object with the current contents of this one"""
    t = type(o).__name__
    c = np.array
    if t == 'FrameE':
        return nv.FrameE(a=o.a, f=o.f, name=o.name, axes=axes_of(o.R_Ee))
    if t == 'GeoPoint':
        return nv.GeoPoint(c(o.latitude), c(o.longitude), c(o.z), frame=rebuild(nv, o.frame))
    if t == 'Nvector':
        return nv.Nvector(c(o.normal), c(o.z), frame=rebuild(nv, o.frame))
    if t == 'ECEFvector':
        return nv.ECEFvector(c(o.pvector), frame=rebuild(nv, o.frame), scalar=o.scalar)
    if t == 'Pvector':
        return nv.Pvector(c(o.pvector), frame=rebuild(nv, o.frame), scalar=o.scalar)
    if t == 'GeoPath':
        return nv.GeoPath(rebuild(nv, o.point_a), rebuild(nv, o.point_b))
    if t == 'FrameN':
        return nv.FrameN(rebuild(nv, o.nvector))
    if t == 'FrameL':
        return nv.FrameL(rebuild(nv, o.nvector), c(o.wander_azimuth))
    if t == 'FrameB':
        return nv.FrameB(rebuild(nv, o.nvector), c(o.yaw), c(o.pitch), c(o.roll))
    if isinstance(o, np.ndarray):
        return o.copy()
    return o


class Change(object):
    """changes of the contents of objects, by assignment or in place"""

    def __init__(self, ctx, rng, s, env):
        self.ctx, self.rng, self.s, self.env = ctx, rng, s, env
        self.made = []

    def put(self, o, name, value):
        old = getattr(o, name)
        if (isinstance(old, np.ndarray) and old.ndim and old.flags.writeable and type(o).__name__ != 'GeoPoint'
                and old.dtype == float and np.shape(value) == old.shape and self.rng.integers(2)):
            old[...] = value
            self.made.append('{}.{}[...]'.format(type(o).__name__, name))
        else:
            setattr(o, name, value)
            self.made.append('{}.{}'.format(type(o).__name__, name))

    def position(self, P, depth=True):
        rng, k = self.rng, self.s['k']
        R = np.asarray(P.frame.R_Ee)
        n = np.ascontiguousarray(R.T @ gen.normalize(rng.normal(size=(3, k)) * [[.5], [1], [1]]))
        a = float(P.frame.a)
        t = type(P).__name__
        if t == 'ECEFvector':
            p = to_double(ref.n2p(n, rng.uniform(-1e-2, 1e-3, k) * a, a, float(P.frame.f), R))
            return self.put(P, 'pvector', p)
        if depth and rng.integers(3) == 0:
            return self.put(P, 'z', rng.uniform(-1e-2, 1e-3, np.shape(P.z)) * a)
        if t == 'Nvector':
            return self.put(P, 'normal', n)
        lat, lon = (to_double(v) for v in ref.n2latlon(n, R))
        which = rng.integers(3)
        if which != 1:
            self.put(P, 'latitude', lat.reshape(np.shape(P.latitude)))
        if which != 2:
            self.put(P, 'longitude', lon.reshape(np.shape(P.longitude)))

    def frame(self, F):
        which = self.rng.integers(3)
        if which == 0:
            self.put(F, 'a', F.a * (1 + 1e-3 * self.rng.random()))
        elif which == 1:
            self.put(F, 'f', F.f * 0.9 + 1e-4)
        else:
            self.put(F, 'R_Ee', ref.R_AXES['E' if axes_of(F.R_Ee) == 'e' else 'e'].copy())

    def local(self, F):
        rng = self.rng
        t = type(F).__name__
        if rng.integers(2):
            return self.position(F.nvector, depth=t == 'FrameB')    # N and L are at the surface
        if t == 'FrameL':
            many = np.ndim(F.wander_azimuth)
            self.put(F, 'wander_azimuth', rng.uniform(-3, 3, self.s['k']) if many else float(rng.uniform(-3, 3)))
        elif t == 'FrameB':
            name = ('yaw', 'pitch', 'roll')[rng.integers(3)]
            self.put(F, name, rng.uniform(-1.5, 1.5, np.shape(getattr(F, name))))
        else:
            new = copy.deepcopy(F.nvector)
            self.put(F, 'nvector', new)
            self.position(new, depth=False)

    def one(self):
        s, rng = self.s, self.rng
        which = rng.integers(9)
        if which <= 2:
            self.position(s[('P', 'Q', 'C', 'geo', 'v')[rng.integers(5)]])
        elif which == 3:
            self.frame(s['frame'])
        elif which == 4:
            self.local(s[('N', 'L', 'B')[rng.integers(3)]])
        elif which == 5:
            path = s[('path', 'path2')[rng.integers(2)]]
            name = ('point_a', 'point_b')[rng.integers(2)]
            if rng.integers(2):
                self.position(getattr(path, name))
            else:
                self.put(path, name, s[('C', 'geo', 'v')[rng.integers(3)]])
        elif which == 6:
            d = s['d']
            self.put(d, 'pvector', d.pvector * rng.uniform(0.5, 2, (3, 1)))
        elif which == 7:
            P = s[('P', 'Q', 'v', 'geo')[rng.integers(4)]]
            new = rebuild(self.ctx.nv, P.frame)
            self.put(P, 'frame', new)
            if rng.integers(2):
                self.frame(new)
        else:
            self.local(s['B'])


def outcome(fn):
    try:
        return numbers(fn())
    except (ValueError, ZeroDivisionError, FloatingPointError) as error:
        return [type(error).__name__]


def changed(ctx, rng, idx):
    k = int(rng.choice([1, 1, 2, 3]))
    s, env = cast(ctx, rng, k)
    if rng.integers(3) == 0:
        s['L'] = ctx.nv.FrameL(s['P'], rng.uniform(-3, 3, k))
    if rng.integers(4) == 0:        # at the surface
        for name in ('P', 'Q', 'C', 'v', 'geo'):
            if hasattr(s[name], 'z'):
                s[name].z = s[name].z * 0
    some = [int(i) for i in rng.choice(14, 3, replace=False)]

    def questions(s):
        fr, g, h, az = s['frame'], s['geo'], s['Q'].to_geo_point(), s['az']
        return thunks(ctx.nv, s) + [q for i in some for q in families(ctx.nv, s)[i]] + [
            lambda: fr.direct(g.latitude, g.longitude, az, s['dist']),
            lambda: fr.inverse(g.latitude, g.longitude, h.latitude, h.longitude)]
    ask = questions(s)
    change = Change(ctx, rng, s, env)
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        for step in range(int(rng.integers(1, 4))):
            for i in rng.permutation(len(ask))[:int(rng.integers(5, len(ask) + 1))]:
                outcome(ask[i])
            for _ in range(int(rng.integers(1, 3))):
                change.one()
            new = {name: rebuild(ctx.nv, o) for name, o in s.items()}
            fresh, ask = questions(new), questions(s)
            for i in range(len(ask)):
                got, want = outcome(ask[i]), outcome(fresh[i])
                ctx.true('answers follow the contents', agree(got, want, 1e-11), (change.made, i, got, want))
    ctx.do('objects', dict, s)
    for m in change.made:
        ctx.tag(m)


WORKLOADS = [('changed', changed, 800, 20000)]
REQUIRE = ['answers follow the contents']
