"""C38: chains of operations"""
import copy
import pickle
import warnings

import numpy as np

from rtm import gen, ref
from rtm.props.c21 import arrays_of, image
from rtm.props.c35 import rebuild
from rtm.props.common import frame, make_point, to_double

TECHNIQUE = ('differential monitor on random programs of object operations fed with their own results: the same program for '
             'all columns at once and column by column, in other axes, units and representations, with copied and newly '
             'made objects; tolerance from the measured conditioning of the program')
DELTA = 1e-9        # perturbation for the conditioning
FLOOR = 5e-12


def turn(n, rng, delta):
    return gen.normalize(n + delta * rng.uniform(-1, 1, n.shape))


# ---------------------------------------------------------------------------- programs
class Program(object):
    """inputs and steps; a step names its registers"""

    def __init__(self, rng, k, idx):
        # which of the steps follow each other
        self.k = k = 1 if idx % 4 == 0 else k
        pairs = PAIRS if k == 1 else FEWER
        pairs = [pairs[rng.integers(len(pairs))] for i in range(4)]
        steps = int(rng.integers(3, 10))
        n = rng.integers(2, 4)
        pts = [gen.nvec(rng, k) if rng.integers(4) == 0 else gen.normalize(rng.normal(size=(3, k))) for _ in range(n)]
        z0 = rng.uniform(-1e-3, 1e-3, k)
        same = rng.integers(4)
        self.points = [(p, (z0 * 0 if same == 0 else z0 if same == 1 else rng.uniform(-1e-3, 1e-3, k))) for p in pts]
        self.lengths = [rng.uniform(0.05, 2, k), rng.uniform(-0.5, 0.5, k) if rng.integers(2) else
                        10 ** rng.uniform(-5, -2, k) * np.ones(k)]
        self.angles = [rng.uniform(-3, 3, k), rng.uniform(-1.4, 1.4, k)]
        self.steps = []
        P, L, A, D = n, 2, 2, 0
        parents, same_opt = [], int(rng.integers(12))
        for at in range(steps):
            ops = ['displace', 'between', 'interpolate', 'intersect', 'foot', 'delta', 'attitude', 'track', 'cross', 'latlon',
                   'solve', 'displace', 'shift', 'displace', 'normal', 'midpoint', 'ray', 'midpoint', 'change']
            if k == 1:
                ops += ['nearest']
            if D:
                ops += ['add', 'turned', 'add', 'sums']
            op = ops[rng.integers(len(ops))]
            if at < 8:
                op = pairs[at // 2][at % 2]
                op = op if op not in ('add', 'turned', 'sums') or D else 'delta'
            p = [int(v) for v in rng.permutation(P)[:2]] + [int(v) for v in rng.integers(P, size=2)]
            mode = (2, 3, 4, 4, 1)[rng.integers(5)] if at % 2 and rng.integers(5) else rng.integers(7)              # go on from the newest position, and where it came from
            origin = parents[-1] if parents and parents[-1] else ()
            if mode in (0, 1) and p[1 - mode] != P - 1:
                p[mode] = P - 1
            elif mode in (2, 3) and origin:
                p[mode - 2], p[3 - mode] = P - 1, origin[0]
            elif mode == 4 and len(origin) > 1:
                p = list(origin[:2]) + [P - 1, p[3] if p[3] not in origin else P - 1]
            elif mode == 5:
                p[2] = P - 1
            ln = int(rng.integers(L)) if rng.integers(2) else L - 1
            an = int(rng.integers(A)) if rng.integers(2) else A - 1
            d = int(rng.integers(D)) if D else 0
            step = dict(op=op, p=p, len=ln, ang=an, ang2=int(rng.integers(A)), d=d,
                        opt=same_opt if rng.integers(2) == 0 else int(rng.integers(12)),
                        num=float(rng.uniform(-0.5, 1.5)), vec=rng.uniform(-1e-2, 1e-2, (3, k)))
            self.steps.append(step)
            for _ in range(GROW[op][0]):
                parents.append(p[:3] if op in ('foot', 'nearest', 'intersect') else p[:2])
            dp, dl, da, dd = GROW[op]
            P, L, A, D = P + dp, L + dl, A + da, D + dd


#            positions, lengths, angles, delta vectors a step makes
GROW = dict(displace=(1, 0, 1, 0), between=(0, 1, 2, 0), interpolate=(1, 0, 0, 0), intersect=(1, 0, 0, 0),
            foot=(1, 0, 0, 0), delta=(0, 1, 2, 1), attitude=(1, 0, 0, 0), track=(0, 1, 0, 0), cross=(0, 1, 0, 0),
            latlon=(1, 0, 0, 0), solve=(1, 1, 2, 0), add=(1, 0, 0, 0), turned=(0, 0, 2, 1), sums=(0, 1, 0, 1),
            shift=(1, 0, 0, 0), normal=(1, 0, 0, 0), midpoint=(1, 0, 0, 0), ray=(1, 1, 0, 1),
            nearest=(1, 0, 0, 0), change=(1, 1, 0, 0))
OFTEN = dict(displace=5, between=4, solve=2, interpolate=2, nearest=2)
PAIRS = [(a, b) for a in sorted(GROW) for b in sorted(GROW) for _ in range(OFTEN.get(a, 1) * OFTEN.get(b, 1))]
FEWER = [p for p in PAIRS if 'nearest' not in p]


class Machine(object):
    """runs a program as some client would"""

    def __init__(self, ctx, prog, a, f, axes, cols=None, degrees=False, kinds=None, dup=None, chat=None, noise=None,
                 kind0='geo'):
        self.ctx, self.nv, self.prog, self.a = ctx, ctx.nv, prog, a
        self.R = ref.R_AXES[axes]
        self.cols = slice(None) if cols is None else slice(cols, cols + 1)
        self.k = prog.k if cols is None else 1
        self.scalar = cols is not None
        self.degrees, self.kinds, self.dup, self.chat, self.noise = degrees, kinds, dup, chat, noise
        self.frame = ctx.do('FrameE', ctx.nv.FrameE, a=a, f=f, axes=axes)
        self.seen = []          # observations
        self.margin = None      # product of the distances of paths from coincidence and of displacements from zero
        self.margins = []
        self.paths = None       # {(i, j): path} of a client which uses its paths again
        self.P = [self.given(make_point(ctx, kind0, self.frame, np.ascontiguousarray(
            self.R.T @ self.jiggle(n)[:, self.cols]), (z * a)[self.cols], self.R, a, f, self.scalar))
            for n, z in prog.points]
        self.L = [self.number(v * a) for v in prog.lengths]
        self.A = [self.number(v) for v in prog.angles]
        self.D = []

    def jiggle(self, n):
        return n if self.noise is None else turn(n, self.noise[0], self.noise[1])

    def number(self, v):
        v = np.array(v[self.cols])
        return float(v[0]) if self.scalar else v

    # -- clients differ in this -------------------------------------------------------------
    def given(self, X):
        """a position or vector on its way into the next operation"""
        ctx = self.ctx
        if self.noise is not None and type(X).__name__ in ('GeoPoint', 'Nvector', 'ECEFvector') and getattr(
                X, 'frame', None) is self.frame:
            return self.moved(X)
        if self.kinds is not None and hasattr(X, 'to_geo_point') and type(X).__name__ != 'Pvector':
            how = ('to_geo_point', 'to_nvector', 'to_ecef_vector')[self.kinds.integers(3)]
            X = ctx.do(how, getattr(X, how))
        X = self.copied(X)
        if self.chat is not None:
            for _ in range(2):
                how = self.chat.integers(7)
                if how == 0:
                    repr(X)
                elif how == 1:
                    ctx.do('compare', lambda: X == X)
                elif how == 2 and type(X).__name__ == 'GeoPoint':
                    ctx.do('latlon_deg', lambda: X.latlon_deg)
                elif how == 3:
                    ctx.do('to_ecef_vector', X.to_ecef_vector)
                elif how == 4:
                    ctx.do('scalar', lambda: X.scalar)
                elif how == 5:
                    ctx.do('to_nvector', X.to_nvector)
                else:
                    ctx.do('to_geo_point', X.to_geo_point)
        return X

    def copied(self, X):
        """the same object, or another with the same contents"""
        if self.dup is not None:
            how = self.dup.integers(4)
            if how == 0:
                return self.ctx.do('deepcopy', copy.deepcopy, X)
            if how == 1:
                return self.ctx.do('pickle', lambda: pickle.loads(pickle.dumps(X)))
            if how == 2:
                return self.ctx.do('rebuild', rebuild, self.nv, X)
        return X

    def moved(self, X):
        """another position nearby at every use"""
        n = X.to_nvector()
        z = n.z + self.a * self.noise[1] * self.noise[0].uniform(-1, 1, np.shape(n.z))
        n = self.nv.Nvector(turn(self.columns(n.normal, (3,)), *self.noise), z, frame=self.frame)
        return {'GeoPoint': n.to_geo_point, 'ECEFvector': n.to_ecef_vector, 'Nvector': n.to_nvector}[type(X).__name__]()

    def p(self, i):
        return self.given(self.P[i])

    def geo(self, i):
        X = self.p(i)
        return X if type(X).__name__ == 'GeoPoint' else self.ctx.do('to_geo_point', X.to_geo_point)

    def ang(self, v):
        """radians -> as this client gives angles"""
        return np.rad2deg(v) if self.degrees else v

    # -- observations -----------------------------------------------------------------------
    def columns(self, v, shape=()):
        v = np.asarray(v, dtype=float)
        self.ctx.eq('numbers of columns', v.size, int(np.prod(shape + (self.k,), dtype=int)), v)
        return v.reshape(shape + (self.k,))

    def position(self, X):
        p = self.ctx.do('to_ecef_vector', X.to_ecef_vector).pvector
        self.seen.append(('position', self.R @ self.columns(p, (3,)) / self.a))
        self.P.append(X)

    def length(self, v):
        self.seen.append(('length', self.columns(v) / self.a))
        if self.noise is not None:
            v = v + self.a * self.noise[1] * self.noise[0].uniform(-1, 1, np.shape(v))
        self.L.append(v)

    def angle(self, v, degrees=None):
        if self.degrees if degrees is None else degrees:
            v = np.deg2rad(v)
        w = self.columns(v)
        self.seen.append(('angle', np.array([np.cos(w), np.sin(w)])))
        if self.noise is not None:
            v = v + self.noise[1] * self.noise[0].uniform(-1, 1, np.shape(v))
        self.A.append(v)

    def delta(self, d, ecef=False):
        v = self.columns(d.pvector, (3,))
        self.seen.append(('vector', (self.R @ v if ecef else v) / self.a))
        if self.noise is not None:
            d = copy.deepcopy(d)
            d.pvector = d.pvector + self.a * self.noise[1] * self.noise[0].uniform(-1, 1, np.shape(d.pvector))
        self.D.append(d)

    # -- steps ------------------------------------------------------------------------------
    def step(self, s):
        getattr(self, 'do_' + s['op'])(s)

    def run(self):
        for s in self.prog.steps:
            self.step(s)
            self.margins += [self.margin] * (len(self.seen) - len(self.margins))
            yield len(self.seen)

    def do_displace(self, s):
        if self.margin is not None:         # the azimuth at the end is that of the way back
            self.margin *= float(np.abs(np.sin(self.L[s['len']] / self.a)).min())
        dist = -self.L[s['len']] if s['opt'] in (2, 3, 7) else self.L[s['len']]
        B, az = self.ctx.do('displace', self.geo(s['p'][0]).displace, dist, self.ang(self.A[s['ang']]),
                            degrees=self.degrees, method=('ellipsoid', 'greatcircle')[s['opt'] % 2],
                            long_unroll=s['opt'] % 3 == 0)
        self.position(B)
        self.angle(az)

    def do_between(self, s):
        d, az_a, az_b = self.ctx.do('distance_and_azimuth', self.geo(s['p'][0]).distance_and_azimuth,
                                    self.p(s['p'][1]), degrees=self.degrees,
                                    method=('ellipsoid', 'greatcircle')[s['opt'] % 2])
        self.length(d)
        self.angle(az_a)
        self.angle(az_b)

    def normal(self, i, j):
        """normal to the great circle, and how well it is determined"""
        a, b = (self.columns(self.P[q].to_nvector().normal, (3,)) for q in (i, j))
        n = np.cross(a - b, a + b, axis=0) / 2
        size = np.sqrt((n * n).sum(axis=0))
        return n / np.where(size > 0, size, 1), float(size.min())

    def path(self, i, j):
        if self.margin is not None:
            self.margin *= self.normal(i, j)[1]
        if self.paths is None or (i, j) not in self.paths:
            path = self.ctx.do('GeoPath', self.nv.GeoPath, self.p(i), self.p(j))
            if self.paths is None:
                return self.given_path(path)
            self.paths[i, j] = path
        return self.paths[i, j]

    def given_path(self, path):
        return path if self.dup is None or self.dup.integers(2) else self.ctx.do('deepcopy', copy.deepcopy, path)

    def do_interpolate(self, s):
        self.position(self.ctx.do('interpolate', self.path(*s['p'][:2]).interpolate, s['num']))

    def do_intersect(self, s):
        a, b = self.path(*s['p'][:2]), self.path(*s['p'][2:])
        if self.margin is not None:
            m = np.cross(self.normal(*s['p'][:2])[0], self.normal(*s['p'][2:])[0], axis=0)
            self.margin *= float(np.sqrt((m * m).sum(axis=0)).min())
        self.position(self.ctx.do('intersect', a.intersect, b))

    def do_foot(self, s):
        self.position(self.ctx.do('closest_point_on_great_circle', self.path(*s['p'][:2]).closest_point_on_great_circle,
                                  self.p(s['p'][2])))

    def do_nearest(self, s):
        """the depth jumps where the closest point becomes an end of the path; keep that of the point"""
        C = self.p(s['p'][2])
        X = self.ctx.do('closest_point_on_path', self.path(*s['p'][:2]).closest_point_on_path, C)
        z = self.ctx.do('to_nvector', C.to_nvector).z
        self.position(self.ctx.do('Nvector', self.frame.Nvector, self.ctx.do('to_nvector', X.to_nvector).normal, z))

    def do_change(self, s):
        """the client assigns to an object of its own, which was asked before"""
        X, Y = self.geo(s['p'][0]), self.geo(s['p'][1])
        X = copy.deepcopy(X)
        path = self.ctx.do('GeoPath', self.nv.GeoPath, X, Y)
        for ask in (X.to_nvector, X.to_ecef_vector, lambda: X.latlon, path.track_distance, lambda: X.delta_to(Y),
                    lambda: X.distance_and_azimuth(Y))[s['opt'] % 6:]:
            self.ctx.do('question', ask)
        if s['opt'] % 2:
            X.z = X.z * 0.5
        if s['opt'] % 3:
            X.longitude = X.longitude + 0.25
        X.latitude = X.latitude * 0.5
        self.length(self.ctx.do('track_distance', path.track_distance, method=('greatcircle', 'euclidean')[s['opt'] // 6]))
        self.position(X)

    def do_track(self, s):
        self.length(self.ctx.do('track_distance', self.path(*s['p'][:2]).track_distance,
                                method=('greatcircle', 'euclidean', 'ellipsoid')[s['opt'] % 3]))

    def do_cross(self, s):
        self.length(self.ctx.do('cross_track_distance', self.path(*s['p'][:2]).cross_track_distance, self.p(s['p'][2]),
                                method=('greatcircle', 'euclidean')[s['opt'] % 2]))

    def do_latlon(self, s):
        g = self.geo(s['p'][0])
        if self.degrees:
            lat, lon, z = self.ctx.do('latlon_deg', lambda: g.latlon_deg)
        else:
            lat, lon, z = self.ctx.do('latlon', lambda: g.latlon)
        self.position(self.ctx.do('GeoPoint', self.frame.GeoPoint, lat, lon, z, degrees=self.degrees))

    def do_solve(self, s):
        g, h = self.geo(s['p'][0]), self.geo(s['p'][1])
        at = ('latitude_deg', 'longitude_deg') if self.degrees else ('latitude', 'longitude')
        (la, lo), (lb, lp) = ([getattr(x, n) for n in at] for x in (g, h))
        d, az_a, az_b = self.ctx.do('inverse', self.frame.inverse, la, lo, lb, lp, z=g.z, degrees=self.degrees)
        self.length(d)
        self.angle(az_a)
        lat, lon, az = self.ctx.do('direct', self.frame.direct, la, lo, az_b, d, z=g.z, degrees=self.degrees)
        self.position(self.ctx.do('GeoPoint', self.frame.GeoPoint, lat, lon, g.z, degrees=self.degrees))
        self.angle(az)

    def do_shift(self, s):
        """the client changes the depth"""
        X = self.ctx.do('to_nvector', self.p(s['p'][0]).to_nvector)
        self.position(self.ctx.do('Nvector', self.frame.Nvector, X.normal, X.z * 0.5))

    def do_normal(self, s):
        """sums of n-vectors"""
        X, Y = (self.ctx.do('to_nvector', self.p(i).to_nvector) for i in s['p'][:2])
        sign = s['opt'] % 2
        Z = self.ctx.do('combine', lambda: (X * 0.7 - Y if sign else X + Y / 3))
        self.ctx.do('unit', Z.unit)
        self.position(self.ctx.do('Nvector', self.frame.Nvector, Z.normal, X.z))

    def do_midpoint(self, s):
        X, Y = (self.ctx.do('to_ecef_vector', self.p(i).to_ecef_vector) for i in s['p'][:2])
        d = self.ctx.do('difference', lambda: Y - X)
        how = s['opt'] % 4
        if how == 0:
            self.position(self.ctx.do('half way', lambda: self.frame.ECEFvector(X.pvector + d.pvector * 0.02)))
            return
        if how == 1:            # the difference belongs to the client
            d.pvector = d.pvector * 0.02
        elif how == 2:
            d.pvector *= 0.02
        else:
            d = self.copied(d)
            d.pvector[...] = 0.02 * d.pvector
        self.position(self.ctx.do('half way', lambda: X + d))

    def do_ray(self, s):
        """a vector in a local frame with components given by the client"""
        v = np.ascontiguousarray(s['vec'][:, self.cols] * self.a)
        L = self.ctx.do('FrameL', self.nv.FrameL, self.p(s['p'][0]), self.A[s['ang']])
        d = self.ctx.do('Pvector', L.Pvector, v)
        self.length(self.ctx.do('length', lambda: d.length))
        e = self.ctx.do('to_ecef_vector', d.to_ecef_vector)
        self.delta(d)
        X = self.ctx.do('to_ecef_vector', self.p(s['p'][0]).to_ecef_vector)
        self.position(self.ctx.do('sum', lambda: X + e))

    def local(self, s):
        X = self.p(s['p'][2])
        how = s['opt'] % 3
        if how == 0:
            F = self.ctx.do('FrameN', self.nv.FrameN, X)
        elif how == 1:
            F = self.ctx.do('FrameL', self.nv.FrameL, X, self.A[s['ang']])
        else:
            F = self.ctx.do('FrameB', self.nv.FrameB, X, self.ang(self.A[s['ang']]), self.ang(self.A[s['ang2']]),
                            self.ang(self.A[1]), degrees=self.degrees)
        return self.copied(F)

    def do_delta(self, s):
        X, Y = self.p(s['p'][0]), self.p(s['p'][1])
        how = s['opt'] // 3
        if how == 0:
            d = self.ctx.do('delta_N', self.nv.delta_N, X, Y)
        elif how == 1:
            d = self.ctx.do('delta_L', self.nv.delta_L, X, Y, self.A[s['ang']])
        elif how == 2:
            d = self.ctx.do('delta_to', X.delta_to, Y)
        else:
            d = self.ctx.do('delta_E', self.nv.delta_E, X, Y)
            d = self.ctx.do('change_frame', d.change_frame, self.local(s))
        self.delta(d)
        self.length(self.ctx.do('length', lambda: d.length))
        self.angle(self.ctx.do('azimuth', lambda: d.azimuth_deg if self.degrees else d.azimuth))
        self.angle(self.ctx.do('elevation', lambda: d.elevation_deg if self.degrees else d.elevation))

    def do_attitude(self, s):
        F = self.local(s)
        v = np.ascontiguousarray(s['vec'][:, self.cols] * self.a)
        e = self.ctx.do('to_ecef_vector', self.ctx.do('Pvector', F.Pvector, v).to_ecef_vector)
        X = self.ctx.do('to_ecef_vector', self.p(s['p'][0]).to_ecef_vector)
        self.position(self.ctx.do('sum', lambda: X + e if s['opt'] % 2 else X - e))

    def do_add(self, s):
        X = self.ctx.do('to_ecef_vector', self.p(s['p'][0]).to_ecef_vector)
        e = self.ctx.do('to_ecef_vector', self.copied(self.D[s['d']]).to_ecef_vector)
        self.position(self.ctx.do('sum', lambda: X + self.frame.ECEFvector(e.pvector * 0.01)))

    def do_turned(self, s):
        e = self.ctx.do('to_ecef_vector', self.copied(self.D[s['d']]).to_ecef_vector)
        d = self.ctx.do('change_frame', e.change_frame, self.local(s))
        self.delta(d)
        self.angle(self.ctx.do('azimuth', lambda: d.azimuth), False)
        self.angle(self.ctx.do('elevation', lambda: d.elevation_deg), True)

    def do_sums(self, s):
        d = self.ctx.do('to_ecef_vector', self.copied(self.D[s['d']]).to_ecef_vector)
        e = self.ctx.do('sums', lambda: -(d + d) + d)
        self.length(self.ctx.do('length', lambda: e.length))
        self.delta(e, True)


def observe(machine):
    """all observations, or those of the steps before the first that gives no number"""
    done = 0
    with np.errstate(all='ignore'), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for n in machine.run():
            if not all(np.isfinite(v).all() for _what, v in machine.seen[done:n]):
                break
            done = n
    return machine.seen[:done]


def conditioning(ctx, rng, prog, base, **kw):
    """largest change of any observation so far, per column, for small changes of everything; the usable length"""
    worst = np.zeros((len(base), prog.k))
    noise = int(rng.integers(2**32))
    fresh = observe(Machine(ctx, prog, noise=(np.random.default_rng(noise), 0.0), **kw))
    for delta in (DELTA, -DELTA, DELTA / 3):
        m = Machine(ctx, prog, noise=(np.random.default_rng(noise), delta), **kw)
        try:
            got = observe(m)
        except Exception:       # the perturbed program is not the one judged
            got = m.seen
        for i in range(len(base)):
            if i < len(fresh) and i < len(got):
                diff = np.abs(got[i][1] - fresh[i][1])
                change = np.where(np.isfinite(diff), diff, 1).reshape(-1, prog.k).max(axis=0)
            else:
                change = 1
            worst[i] = np.maximum(worst[i], change)
    return np.maximum.accumulate(worst, axis=0), fresh


def chains(ctx, rng, idx):
    fr, a, f, R, ax = frame(ctx, rng)
    prog = Program(rng, int(rng.choice([1, 2, 3, 4, 9])), idx)
    k = prog.k
    kw = dict(a=a, f=f, axes=ax)
    first = Machine(ctx, prog, **kw)
    first.margin, first.paths = 1.0, {}
    base = observe(first)
    worst, fresh = conditioning(ctx, rng, prog, base, **kw)
    # what follows a result which depends on rounding errors is not judged
    good = (worst < 1e-4).all(axis=1) & (np.array(first.margins[:len(base)]) > 1e-5)
    ctx.tag('observations', len(base) * k)
    ends = np.cumsum([sum(GROW[s['op']]) for s in prog.steps])
    prog.steps = [s for s, e in zip(prog.steps, ends) if e <= len(base) and good[:e].all()]
    base = base[:sum(sum(GROW[s['op']]) for s in prog.steps)]
    tol = FLOOR + worst * 3e-5 + 3e-14 / np.array(first.margins[:len(worst)]).reshape(-1, 1).clip(1e-5)
    ctx.tag('usable observations', len(base) * k)
    for s in prog.steps:
        ctx.tag('step ' + s['op'])

    def judge(name, seen, cols=slice(None)):
        ctx.eq('as many results: ' + name, len(seen), len(base))
        for i, ((what, got), (_what, want)) in enumerate(zip(seen, base)):
            scale = tol[i, cols]
            want = want[..., cols].reshape(-1, len(scale))
            ctx.close('chain: {}: {}'.format(name, what), got.reshape(want.shape) / scale, want / scale, 1,
                      (i, [s['op'] for s in prog.steps], prog.steps))
    judge('new objects at every use', fresh[:len(base)])
    same = Machine(ctx, prog, **kw)
    images = [image(o) for o in same.P]
    judge('again', observe(same))
    ctx.eq('inputs of a chain untouched', [image(o) for o in same.P[:len(images)]], images)
    i = int(rng.integers(k))
    judge('column', observe(Machine(ctx, prog, cols=i, **kw)), slice(i, i + 1))
    other = dict(kw, axes='E' if ax == 'e' else 'e')
    judge('axes', observe(Machine(ctx, prog, **other)))
    judge('degrees', observe(Machine(ctx, prog, degrees=True, **kw)))
    judge('representations', observe(Machine(ctx, prog, kinds=rng, kind0='nvec', **kw)))
    judge('copies', observe(Machine(ctx, prog, dup=rng, **kw)))
    judge('questions in between', observe(Machine(ctx, prog, chat=rng, **kw)))
    mixed = dict(other, degrees=bool(rng.integers(2)), kinds=rng, dup=rng, kind0=('geo', 'nvec', 'ecef')[rng.integers(3)])
    j = int(rng.integers(k))
    judge('everything', observe(Machine(ctx, prog, cols=j, **mixed)), slice(j, j + 1))


WORKLOADS = [('chains', chains, 12000, 45000)]
VARIANTS = ('new objects at every use', 'again', 'column', 'axes', 'degrees', 'representations', 'copies', 'questions in between', 'everything')
REQUIRE = ['inputs of a chain untouched'] + ['chain: {}: {}'.format(v, w) for v in VARIANTS
                                             for w in ('position', 'length', 'angle', 'vector')]
