"""C21: purity"""
import copy
import itertools
import os
import pickle
import random
import struct
import sys
import threading
import warnings

import numpy as np

from rtm import catalog, engine, gen
from rtm.env import REPO_SRC
from rtm.props.c18 import environment, sister
from rtm.props.common import KINDS, frame, make_point
from rtm.sched import Scheduler

TECHNIQUE = ('snapshot monitors on arguments, objects and global state; a pristine forked process against calls with '
             'a history; poisoned return values; controlled thread interleavings and free-running threads against '
             'sequential results')
TOL = 5e-13
OPS = catalog.OPS


# ---------------------------------------------------------------------------- snapshots
def image(obj, depth=0):
    """bits of arrays, values and structure of an object"""
    if isinstance(obj, np.ndarray):
        return ('array', obj.dtype.str, obj.shape, obj.tobytes())
    if isinstance(obj, dict):
        return tuple(sorted((str(k), image(v, depth + 1)) for k, v in obj.items()))
    if isinstance(obj, (tuple, list)):
        return (type(obj).__name__,) + tuple(image(o, depth + 1) for o in obj)
    if type(obj).__module__.startswith('nvector') and hasattr(obj, '__dict__'):
        return (type(obj).__name__, image({k: v for k, v in vars(obj).items() if not k.startswith('_')}, depth + 1))
    return repr(obj)


def tables(nv):
    return image([getattr(mod, name, None) for mod, name in (
        (nv.util, 'ELLIPSOID'), (nv.util, 'ELLIPSOID_IX'), (nv.rotation, 'E_ROTATION_MATRIX'))])


def settings():
    return (np.geterr(), list(warnings.filters), warnings.showwarning, np.get_printoptions(), os.getcwd(),
            random.getstate(), image(list(np.random.get_state())), dict(os.environ), sys.getrecursionlimit())


class Watched(catalog.Env):
    """records the objects and arrays a client hands over"""

    def start(self, rng):
        self.rng = rng
        self.seen = []

    def watch(self, obj):
        self.seen.append((obj, image(obj)))
        return obj

    def send(self, kind, x):
        y = catalog.Env.send(self, kind, x)
        if isinstance(y, np.ndarray) and self.rng.integers(3) == 0:
            y.setflags(write=False)
        return self.watch(y)

    def point(self, name, n, z):
        return self.watch(catalog.Env.point(self, name, n, z))


def watched(rng, env):
    out = Watched.__new__(Watched)
    out.__dict__.update(env.__dict__)
    out.start(rng)
    if out.frame is not None:
        out.watch(out.frame)
    out.watch(out.R)
    return out


def count(rng, o):
    return 1 if not o.vector else int(rng.choice([1, 2, 3, 3, 4]))


def arguments(ctx, rng, idx):
    """no argument, object, table or setting changes, and repetition gives the same"""
    o = OPS[idx % len(OPS)]
    env = watched(rng, environment(ctx, rng, o))
    x = catalog.inputs(rng, o, count(rng, o), env.a)
    state = dict(zip(('divide', 'over', 'under', 'invalid'), rng.choice(['ignore', 'warn'], 4)))
    with np.errstate(**state):
        before, table = settings(), tables(ctx.nv)
        r1, raw1 = o.run(env, x)
        after = settings()
        ctx.true('settings untouched', _same(before, after), (o.name, before, after))
        ctx.eq('tables untouched', tables(ctx.nv), table, o.name)
    for obj, img in env.seen:
        ctx.eq('arguments untouched', image(obj), img, (o.name, obj))
    r1 = copy.deepcopy(r1)
    again = watched(rng, env)
    garbage(env, raw1)
    r2, _raw = o.run(again, x)
    catalog.compare(ctx, 'the same again', o, r2, r1, TOL, env.a, (x, env.kinds))


def _same(a, b):
    return all(image(p) == image(q) if not isinstance(p, (tuple, list, dict)) else p == q for p, q in zip(a, b))


def writable_parts(values):
    for v in values:
        if isinstance(v, np.ndarray) and v.flags.writeable:
            yield v


def garbage(env, raw):
    """a client overwrites what it was given, but not its own arrays"""
    own = [a for obj, _img in getattr(env, 'seen', ()) for a in arrays_of(obj)]
    for v in writable_parts(raw.values()):
        if not any(np.shares_memory(v, w) for w in own):
            v[...] = 77 if v.dtype != bool else ~v


def arrays_of(obj):
    if isinstance(obj, np.ndarray):
        yield obj
    elif isinstance(obj, (tuple, list)):
        for o in obj:
            for a in arrays_of(o):
                yield a
    elif type(obj).__module__.startswith('nvector') and hasattr(obj, '__dict__'):
        for o in vars(obj).values():
            for a in arrays_of(o):
                yield a


# ---------------------------------------------------------------------------- objects used again
def thunks(nv, s):
    """what one can ask objects, without changing them"""
    P, Q, fr, path, N, L, B, d = s['P'], s['Q'], s['frame'], s['path'], s['N'], s['L'], s['B'], s['d']
    g, az, dist, k = s['geo'], s['az'], s['dist'], s['k']
    out = []
    for X in (P, Q):
        out += [X.to_geo_point, X.to_nvector, X.to_ecef_vector, lambda X=X: repr(X), lambda X=X: X.scalar,
                lambda X=X: X == 5, lambda X=X: str(X.frame)]
    out += [lambda: nv.delta_E(P, Q), lambda: nv.delta_N(P, Q), lambda: nv.delta_L(P, Q, 0.3),
            lambda: P.delta_to(Q), lambda: N.R_EN, lambda: L.R_EN, lambda: B.R_EN,
            lambda: d.change_frame(N), lambda: d.change_frame(B), lambda: d.length, lambda: d.azimuth,
            lambda: d.elevation, lambda: d.azimuth_deg, lambda: d.elevation_deg, lambda: d + d, lambda: d - d,
            lambda: -d, lambda: N.Pvector(d.pvector), lambda: N.Pvector(d.pvector).to_ecef_vector(),
            lambda: g.latlon_deg, lambda: g.latlon, lambda: g.latitude_deg, lambda: g.longitude_deg,
            lambda: g.displace(dist, az), lambda: g.displace(dist, az, method='greatcircle'),
            lambda: g.distance_and_azimuth(Q), lambda: g.distance_and_azimuth(Q, method='greatcircle', degrees=True),
            lambda: path.track_distance(), lambda: path.track_distance(method='euclidean'),
            lambda: path.track_distance(method='ellipsoid'), lambda: path.cross_track_distance(s['C']),
            lambda: path.interpolate(0.3), lambda: path.on_great_circle(s['C']), lambda: path.on_path(s['C']),
            lambda: path.on_path(s['C'], method='ellipsoid'), path.nvectors, path.geo_points, path.ecef_vectors,
            path.nvector_normals, lambda: path.closest_point_on_great_circle(s['C']),
            lambda: path.intersect(s['path2']), lambda: repr(path.point_a), lambda: P == Q, lambda: P != Q,
            lambda: fr == s['frame2'], lambda: N == L, lambda: repr(B), lambda: repr(fr),
            lambda: fr.GeoPoint(az, az), lambda: fr.Nvector(s['v'].normal), lambda: fr.ECEFvector(d.pvector),
            lambda: s['v'] + s['v'], lambda: s['v'] - s['v'], lambda: -s['v'], lambda: s['v'] * 2.0,
            lambda: s['v'] / 2.0, s['v'].mean]
    if k == 1:
        out.append(lambda: path.closest_point_on_path(s['C']))
    else:
        out.append(lambda: s['v'].interpolate(np.linspace(0, k - 1, 5), np.arange(k)))
    return out


def families(nv, s):
    """the same question to the same objects, with different options"""
    P, Q, C, fr, path, v = s['P'], s['Q'], s['C'], s['frame'], s['path'], s['v']
    g, az, dist, k, a = s['geo'], s['az'], s['dist'], s['k'], s['a']
    h = Q.to_geo_point()
    B = nv.FrameB
    out = [
        [lambda u=u, d=d, sg=sg: g.displace(sg * dist, az, long_unroll=u, degrees=d)
         for u in (False, True) for d in (False, True) for sg in (1, 5)],
        [lambda d=d, sg=sg: g.displace(sg * dist, az, degrees=d, method='greatcircle')
         for d in (False, True) for sg in (1, -1, 5)],
        [lambda u=u, d=d, z=z: fr.direct(g.latitude, g.longitude, az, 3 * dist, z=z, long_unroll=u, degrees=d)
         for u in (False, True) for d in (False, True) for z in (0, 0.1 * a)],
        [lambda u=u, d=d, z=z: fr.inverse(g.latitude, g.longitude, h.latitude, h.longitude, z=z, long_unroll=u,
                                          degrees=d) for u in (False, True) for d in (False, True) for z in (0, 0.1 * a)],
        [lambda d=d, m=m, X=X: g.distance_and_azimuth(X, degrees=d, method=m)
         for d in (False, True) for m in ('ellipsoid', 'greatcircle') for X in (Q, C)],
        [lambda m=m, r=r: path.track_distance(method=m, radius=r)
         for m in ('greatcircle', 'euclidean', 'exact') for r in (None, 1.0, 0.5 * a)],
        [lambda m=m, r=r, X=X: path.cross_track_distance(X, method=m, radius=r)
         for m in ('greatcircle', 'euclidean') for r in (None, 1.0) for X in (C, Q)],
        [lambda m=m, t=t, X=X: path.on_path(X, method=m, rtol=t, atol=t * a)
         for m in ('greatcircle', 'ellipsoid') for t in (1e-12, 1.0) for X in (P, C)],
        [lambda t=t, X=X: path.on_great_circle(X, atol=t) for t in (0, a) for X in (P, C)],
        [lambda t=t: path.interpolate(t) for t in (0.0, 0.25, 0.5, 1.0)],
        [lambda w=w: nv.delta_L(P, Q, wander_azimuth=w) for w in (0, 0.5, -1, 3)],
        [lambda y=y, d=d: B(P, y, 0.5 * y, -y, degrees=d).R_EN for y in (0, 0.5, -1) for d in (False, True)],
        [lambda X=X, w=w: s['d'].change_frame(nv.FrameL(X, w)) for X in (P, Q, C) for w in (0, 1)],
        [lambda X=X: X.to_nvector() for X in (P, Q, C)] + [lambda X=X: X.to_ecef_vector() for X in (P, Q, C)]
        + [lambda X=X: X.to_geo_point() for X in (P, Q, C)],
        [lambda X=X, Y=Y: X == Y for X in (P, Q, C) for Y in (P, Q, C)],
    ]
    if k > 1:
        t = np.linspace(0, k - 1, 5)
        out.append([lambda kind=kind, w=w, m=m: v.interpolate(t, np.arange(k), kind=kind, window_length=w, polyorder=0,
                                                              mode=m)
                    for kind in ('linear', 'nearest') for w in ((0, 3) if k > 2 else (0,))
                    for m in ('nearest', 'mirror')])
    return out


def cast(ctx, rng, k, kinds=None):
    fr, a, f, R, ax = frame(ctx, rng)
    o = catalog.BY_NAME['GeoPath.intersect']
    x = catalog.inputs(rng, o, k, a)
    e = catalog.Env(ctx, a=a, f=f, axes=ax, frame=fr)
    pts = []
    for i, (n, z) in enumerate(('nz', 'mw', 'pv', 'qu')):
        kind = kinds[i] if kinds else KINDS[rng.integers(3)]
        pts.append(make_point(ctx, kind, fr, np.ascontiguousarray(np.einsum('ji,jk->ik', R, x[n])), x[z], R, a, f))
    P, Q, C, D = pts
    nv = ctx.nv
    az = rng.uniform(-3, 3, k)
    s = dict(k=k, a=a, P=P, Q=Q, C=C, frame=fr, frame2=nv.FrameE(a=a, f=f, axes=ax), path=nv.GeoPath(P, Q),
             path2=nv.GeoPath(C, D), N=nv.FrameN(P), L=nv.FrameL(P, 0.4), B=nv.FrameB(P, 0.1, 0.2, az),
             d=nv.delta_E(P, Q), geo=P.to_geo_point(), v=Q.to_nvector(), az=az, dist=az * a / 4)
    return s, e


def numbers(obj):
    """all numbers in a result"""
    if isinstance(obj, str):
        return [obj]
    if isinstance(obj, (tuple, list)):
        return [y for o in obj for y in numbers(o)]
    if type(obj).__module__.startswith('nvector') and hasattr(obj, '__dict__'):
        return [type(obj).__name__] + [y for n, o in sorted(vars(obj).items()) if not n.startswith('_')
                                       for y in numbers(o)]
    return [np.array(obj)]


def agree(a, b, tol=TOL):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if isinstance(x, str) or isinstance(y, str):
            if x != y:
                return False
            continue
        if x.shape != y.shape:
            return False
        if x.dtype.kind in 'fiu' and y.dtype.kind in 'fiu':
            scale = np.maximum(1, np.abs(np.where(np.isfinite(x), x, 0)).max() if x.size else 1)
            with np.errstate(all='ignore'):
                if not np.all((np.abs(x - y) <= tol * scale) | (np.isnan(x) & np.isnan(y)) | (x == y)):
                    return False
        elif not np.array_equal(x, y):
            return False
    return True


def objects(ctx, rng, idx):
    """questions to the same objects in any order, answers overwritten by the client"""
    k = int(rng.choice([1, 1, 2, 3, 4]))
    s, _e = cast(ctx, rng, k)
    ask = thunks(ctx.nv, s)
    if rng.integers(2):     # one question with different options
        ask = [q for i in rng.choice(14, 3, replace=False) for q in families(ctx.nv, s)[i]]
    first = {}
    mine = [a for o in s.values() for a in arrays_of(o)] + [
        a for o in (s['path'], s['path2']) for p in (o.point_a, o.point_b) for a in arrays_of(p)]
    for step in range(40):
        i = int(rng.integers(len(ask)))
        img = image(s)
        table = tables(ctx.nv)
        got = ctx.do('question {}'.format(i), ask[i])
        ctx.eq('objects untouched', image(s), img, i)
        ctx.eq('tables untouched', tables(ctx.nv), table, i)
        ans = numbers(got)
        if i in first:
            ctx.true('the same answer again', agree(ans, first[i]), (i, ans, first[i]))
        else:
            first[i] = ans
        for v in arrays_of(got):
            if v.flags.writeable and not any(np.shares_memory(v, w) for w in mine):
                v[...] = 55
    ctx.tag('questions', len(first))


def in_place(ctx, rng, idx):
    """normalisation is in place for the object, not for the array of the client"""
    k = gen.ncols(rng)
    raw = gen.nvec(rng, k) * rng.uniform(0.2, 5, k)
    fr = ctx.do('FrameE', ctx.nv.FrameE)
    keep = raw.copy()
    v = ctx.do('Nvector', fr.Nvector, raw, 5.0)
    ctx.do('unit', v.unit)
    ctx.true('array of the client untouched by unit', np.array_equal(raw, keep), (raw, keep))
    ctx.close('in-place normalisation', v.normal, gen.normalize(keep), 1e-14, raw)
    ctx.eq('depth untouched by unit', v.z, 5.0)
    ctx.true('frame untouched by unit', v.frame is fr)


def spoil(obj):
    for v in arrays_of(obj):
        if v.flags.writeable:
            v[...] = 33


def returned(ctx, rng, idx):
    """matrices and frames which a client was given and spoils are its own"""
    nv = ctx.nv
    a, f = gen.ellipsoid(rng)
    ax = ('e', 'E')[rng.integers(2)]
    k = int(rng.choice([1, 2, 3]))
    lat, lon = gen.lat(rng, k), gen.lon(rng, k)
    keep = nv.FrameE(a=a, f=f, axes=ax)
    P = nv.GeoPoint(lat, lon, 0.1 * a, frame=keep)

    def all_results():
        fr = nv.FrameE(a=a, f=f, axes=ax)
        n = nv.lat_lon2n_E(lat, lon, nv.E_rotation(ax))
        Q = fr.GeoPoint(lat, lon)
        return numbers([nv.E_rotation(ax), nv.E_rotation(), fr, n, nv.lat_lon2n_E(lat, lon), nv.n_E2lat_lon(n),
                        P.to_ecef_vector(), P.to_nvector(), nv.FrameN(P).R_EN, nv.FrameB(P, 1, 2, 3).R_EN,
                        nv.FrameL(P, 1).R_EN, Q.to_nvector(), Q.to_ecef_vector(), nv.GeoPoint(lat, lon).to_ecef_vector(),
                        nv.n_E2R_EN(n), nv.xyz2R(0, 0, 0), nv.zyx2R(0, 0, 0), nv.unit(np.zeros((3, 2))),
                        nv.unit(np.zeros((3, 1))), nv.get_ellipsoid('wgs84'), nv.rotation.E_rotation('E')])
    want = ctx.do('results', all_results)
    mine = nv.FrameE(a=a, f=f, axes=ax)
    point = nv.GeoPoint(np.array(lat), np.array(lon), 0.1 * a, frame=nv.FrameE(a=a, f=f, axes=ax))
    for thing in (lambda: nv.E_rotation(ax), lambda: nv.E_rotation(), lambda: mine.R_Ee, lambda: nv.FrameE().R_Ee,
                  lambda: nv.GeoPoint(0, 0).frame.R_Ee, lambda: point.to_nvector(),
                  lambda: nv.FrameN(point).nvector.normal, lambda: nv.FrameN(point).R_EN,
                  lambda: nv.FrameB(point, 1, 2, 3).R_EN, lambda: nv.xyz2R(0, 0, 0), lambda: nv.zyx2R(0, 0, 0),
                  lambda: nv.unit(np.zeros((3, 2))), lambda: nv.unit(np.zeros((3, 1))),
                  lambda: nv.Nvector(nv.lat_lon2n_E(lat, lon)).mean()):
        if rng.integers(2):
            spoil(ctx.do('thing', thing))
    got = ctx.do('results', all_results)
    ctx.true('spoiled results belong to the client', agree(got, want), (a, f, ax, lat, lon, got, want))


def unusual(ctx, rng, idx):
    """settings, tables and arguments after calls that warn or are refused"""
    nv = ctx.nv
    o = OPS[idx % len(OPS)]
    env = watched(rng, environment(ctx, rng, o))
    x = catalog.inputs(rng, o, count(rng, o), env.a)
    how = rng.integers(3)
    if how == 0:        # wrong lengths
        for n, t in o.inputs.items():
            if t == 'n':
                x[n] = x[n] * rng.uniform(1.2, 3)
    elif how == 1:      # no direction at all
        for n, t in o.inputs.items():
            x[n] = x[n] * 0
    else:               # not a number
        for n, t in o.inputs.items():
            if rng.integers(2):
                x[n] = x[n] * np.nan
    actions = ['ignore', 'default', 'always', 'once', 'error']
    bad = [lambda: nv.get_ellipsoid('no such'), lambda: nv.FrameE(name='no such'), lambda: nv.FrameE(axes='x'),
           lambda: nv.E_rotation('x'), lambda: nv.GeoPoint([1, 2], [1, 2, 3]), lambda: nv.unit(np.zeros((3, 2)), 'a'),
           lambda: nv.GeoPoint(0, 0).distance_and_azimuth(nv.GeoPoint(0, 0, frame=nv.FrameE(a=1, f=0))),
           lambda: nv.Nvector(np.eye(3)) * nv.Nvector(np.eye(3)), lambda: nv.mdot(np.eye(3), np.eye(2)),
           lambda: nv.diff_positions(nv.GeoPoint(0, 0), nv.GeoPoint(0, 1)), lambda: nv.select_ellipsoid(1),
           lambda: nv.GeoPath(nv.GeoPoint(0, 0), nv.GeoPoint(0, 1)).positionA,
           lambda: nv.GeoPath(nv.GeoPoint(0, 0), nv.GeoPoint(0, 1)).intersection(
               nv.GeoPath(nv.GeoPoint(0, 0), nv.GeoPoint(0, 1))),
           lambda: nv.interp_nvectors(0.5, np.arange(3), np.eye(3), kind='no such'),
           lambda: nv.interp_nvectors(0.5, np.arange(3), np.eye(3), window_length=9),
           lambda: nv.Nvector(np.eye(3), z=np.arange(2)).to_ecef_vector()]
    with warnings.catch_warnings(record=rng.integers(2) == 0):
        warnings.simplefilter(actions[rng.integers(5)])
        state = dict(zip(('divide', 'over', 'under', 'invalid'), rng.choice(['ignore', 'warn', 'raise'], 4)))
        with np.errstate(**state):
            before, table = settings(), tables(nv)
            for fn in (lambda: o.fn(loose(env, nv), {n: env.send(o.inputs[n], v) for n, v in x.items()}),
                       bad[rng.integers(len(bad))], bad[rng.integers(len(bad))]):
                try:
                    fn()
                    ctx.tag('unusual call answered')
                except Exception as error:      # whether it should fail is decided elsewhere
                    ctx.tag('unusual call refused: ' + type(error).__name__)
            after = settings()
    ctx.true('settings untouched by unusual calls', _same(before, after), (o.name, how, before, after))
    ctx.eq('tables untouched by unusual calls', tables(nv), table, o.name)
    for obj, img in env.seen:
        ctx.eq('arguments untouched by unusual calls', image(obj), img, (o.name, obj))


class Unrecorded(object):
    def __init__(self, nv):
        self.nv = nv

    def do(self, _label, fn, *args, **kwds):
        return fn(*args, **kwds)


class Loose(catalog.Env):
    """calls the library without the recorder, which would report the exceptions"""

    def do(self, fn, *args, **kwds):
        return fn(*args, **kwds)


def loose(env, nv):
    out = Loose.__new__(Loose)
    out.__dict__.update(env.__dict__)
    out.ctx = Unrecorded(nv)
    return out


# ---------------------------------------------------------------------------- history
class Pristine(object):
    """a process forked before anything was called; it forks again for every question"""

    def __init__(self, ctx):
        self.r, w = os.pipe()
        r, self.w = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(self.r)
            os.close(self.w)
            self.serve(ctx, r, w)
        os.close(r)
        os.close(w)

    def serve(self, ctx, r, w):
        try:
            with os.fdopen(r, 'rb') as fin:
                while True:
                    head = fin.read(8)
                    if len(head) < 8:
                        os._exit(0)
                    data = fin.read(struct.unpack('q', head)[0])
                    pid = os.fork()
                    if pid == 0:
                        try:
                            what, params, x = pickle.loads(data)
                            ctx.begin()
                            try:
                                out = ('ok', catalog.BY_NAME[what].run(make(ctx, params), x)[0])
                            except engine.Violated as error:
                                out = ('error', error.detail)
                            reply = pickle.dumps(out)
                            os.write(w, struct.pack('q', len(reply)))
                            sent = 0
                            while sent < len(reply):
                                sent += os.write(w, reply[sent:])
                        finally:
                            os._exit(0)
                    os.waitpid(pid, 0)
        finally:
            os._exit(1)

    def ask(self, what, params, x):
        data = pickle.dumps((what, params, x))
        os.write(self.w, struct.pack('q', len(data)))
        sent = 0
        while sent < len(data):
            sent += os.write(self.w, data[sent:])
        return pickle.loads(self._read(struct.unpack('q', self._read(8))[0]))

    def _read(self, n):
        out = b''
        while len(out) < n:
            part = os.read(self.r, n - len(out))
            if not part:
                raise RuntimeError('the pristine process died')
            out += part
        return out


_pristine = {}


def pristine(ctx):
    if os.getpid() not in _pristine:
        _pristine[os.getpid()] = Pristine(ctx)
    return _pristine[os.getpid()]


def parameters(env):
    return dict(a=env.a, f=env.f, R=None if env.axes else env.R, axes=env.axes, degrees=env.degrees, kinds=env.kinds,
                scalar=env.scalar)


def make(ctx, params):
    return catalog.Env(ctx, **params)


ONCE = {}


def history(ctx, rng, idx):
    """a call after a history of related calls against the same call in a process without history"""
    server = pristine(ctx)
    o = OPS[idx % len(OPS)]
    env = environment(ctx, rng, o)
    k = count(rng, o)
    x = catalog.inputs(rng, o, k, env.a)
    params = parameters(env)
    # related calls
    buffers = {n: np.array(v) for n, v in x.items()}
    for _ in range(int(rng.integers(1, 6))):
        how = rng.integers(6)
        other = OPS[rng.integers(len(OPS))] if how == 0 else o
        e = environment(ctx, rng, other) if how in (0, 1) else env
        y = catalog.inputs(rng, other, k if other.vector else 1, e.a)
        if how == 2:        # almost the same values
            eps = 10.0 ** -rng.uniform(1, 9)
            y = {n: blend(x[n], y[n], eps, o.inputs[n]) for n in x}
        elif how == 3:      # the same values on another ellipsoid, in other axes
            p = dict(params)
            if rng.integers(2):
                p['f'] = p['f'] / 2
            else:
                p['axes'] = p['axes'] and ('E' if p['axes'] == 'e' else 'e')
                if not p['axes']:
                    p['R'] = gen.PERM24[rng.integers(24)]
            e, y = make(ctx, p), x
        elif how == 4:      # another number of columns
            y = catalog.inputs(rng, other, count(rng, o), e.a)
        elif how == 5:      # the same arrays, overwritten
            for n in buffers:
                if buffers[n].shape == y[n].shape:
                    buffers[n][...] = y[n]
            y = buffers
        ctx.attempt(other.name, other.run, e, y)
    for n in buffers:
        buffers[n][...] = x[n]
    got, _raw = o.run(env, buffers)
    status, want = server.ask(o.name, params, x)
    ctx.eq('pristine process works', status, 'ok', want)
    catalog.compare(ctx, 'history', o, got, want, TOL, env.a, (x, env.kinds))


def blend(x, y, eps, kind):
    z = x + eps * (y - x)
    return gen.normalize(z) if kind == 'n' else z


# ---------------------------------------------------------------------------- threads
def jobs_of(ctx, rng, n, idx):
    """n independent jobs: list of (op, env, inputs)"""
    jobs = []
    same = OPS[idx % len(OPS)]
    env = environment(ctx, rng, same)
    for _ in range(n):
        job = []
        for _ in range(int(rng.integers(1, 4))):
            if rng.integers(2):
                o, e = same, env            # the same operation and the same frame in several threads
            else:
                o = OPS[rng.integers(len(OPS))]
                e = environment(ctx, rng, o)
            job.append((o, sister(e), catalog.inputs(rng, o, count(rng, o), e.a)))
        jobs.append(job)
    return jobs


def plain(ctx, nv):
    """context for a thread: no event record"""
    c = engine.Ctx(nv, ctx.prop, ctx.tier)
    c.begin()
    return c


def runner(ctx, job):
    def work():
        c = plain(ctx, ctx.nv)
        out = []
        for o, e, x in job:
            e = sister(e, ctx=c)
            out.append(o.run(e, x)[0])
        return out
    return work


def judge(ctx, name, jobs, results, want):
    for (got, error), job, ref in zip(results, jobs, want):
        ctx.eq('no exception in a thread', error, None, getattr(error, 'detail', None))
        for (o, e, x), g, w in zip(job, got, ref):
            catalog.compare(ctx, name, o, g, w, TOL, e.a, (x, e.kinds))


def same_settings(ctx, before):
    """numpy's error state is one per thread, the rest belongs to the process"""
    for was, now in zip(before, settings()):
        ctx.eq('settings untouched by threads', now, was)


LIBRARY = os.path.join(REPO_SRC, 'nvector') + os.sep


def interleaved(ctx, rng, idx):
    """threads switched at source lines of the library, chosen by the seed"""
    jobs = jobs_of(ctx, rng, int(rng.choice([2, 2, 3, 4])), idx)
    want = [runner(ctx, j)() for j in jobs]
    ctx.do('threads', lambda: None)
    s = Scheduler(random.Random(int(rng.integers(2**60))), LIBRARY, float(rng.choice([0.05, 0.2, 0.5])))
    table, before = tables(ctx.nv), settings()
    results = s.run([runner(ctx, j) for j in jobs])
    judge(ctx, 'interleaved', jobs, results, want)
    ctx.eq('tables untouched', tables(ctx.nv), table)
    same_settings(ctx, before)
    engine.feed(ctx.digest, s.digest.digest())
    ctx.tag('interleaving switches', s.switches)
    ctx.tag('interleaved lines', s.lines)
    ctx.tag('distinct interleavings', 1 if s.digest.digest() not in ONCE else 0)
    ONCE[s.digest.digest()] = 1


def shared(ctx, rng, idx):
    """threads which ask the same objects"""
    k = int(rng.choice([1, 2, 3]))
    s, _e = cast(ctx, rng, k)
    ask = thunks(ctx.nv, s)
    table, img = tables(ctx.nv), image(s)
    some = rng.integers(3)
    if some:        # one question with different options
        families_ = families(ctx.nv, s)
        which = int(rng.integers(len(families_)))
        ask = families_[which]
        ctx.tag('family {}'.format(which))
    picks = [[int(i) for i in rng.integers(len(ask), size=4)] for _ in range(int(rng.choice([2, 3])))]
    if not some and rng.integers(2):
        picks[1][:2] = picks[0][:2]
    want = {i: numbers(ctx.do('question {}'.format(i), ask[i])) for i in sorted(set(itertools.chain(*picks)))}
    before = settings()
    sch = Scheduler(random.Random(int(rng.integers(2**60))), LIBRARY, float(rng.choice([0.05, 0.2, 0.5])))
    results = sch.run([lambda p=p: [numbers(ask[i]()) for i in p] for p in picks])
    for (got, error), p in zip(results, picks):
        ctx.eq('no exception in a thread', error, None)
        for i, g in zip(p, got):
            ctx.true('same answer from shared objects', agree(g, want[i]), (i, g, want[i]))
    ctx.eq('objects untouched', image(s), img)
    ctx.eq('tables untouched', tables(ctx.nv), table)
    same_settings(ctx, before)
    ctx.tag('interleaving switches', sch.switches)


def free(ctx, rng, idx):
    """free-running threads with a tiny switch interval"""
    jobs = jobs_of(ctx, rng, 6, idx)
    want = [runner(ctx, j)() for j in jobs]
    results = [None] * len(jobs)
    start = threading.Barrier(len(jobs))

    def body(i):
        start.wait()
        try:
            for _ in range(3):
                results[i] = (runner(ctx, jobs[i])(), None)
        except Exception as error:
            results[i] = (None, error)
    ctx.do('threads', lambda: None)
    before = settings()
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        threads = [threading.Thread(target=body, args=(i,)) for i in range(len(jobs))]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
    finally:
        sys.setswitchinterval(old)
    judge(ctx, 'free', jobs, results, want)
    same_settings(ctx, before)


WORKLOADS = [('history', history, 900, 20000), ('arguments', arguments, 2500, 50000), ('objects', objects, 500, 8000),
             ('unusual', unusual, 1200, 20000), ('in_place', in_place, 300, 4000), ('returned', returned, 400, 4000), ('interleaved', interleaved, 500, 20000),
             ('shared', shared, 700, 16000), ('free', free, 100, 2000)]
REQUIRE = ['settings untouched', 'settings untouched by threads', 'settings untouched by unusual calls', 'spoiled results belong to the client', 'arguments untouched', 'tables untouched', 'objects untouched',
           'array of the client untouched by unit', 'same answer from shared objects', 'the same answer again'] + [
               'history: ' + o.name for o in OPS] + ['the same again: ' + o.name for o in OPS]
