"""C31: results depend on the numbers passed in, not on how they are stored"""
import warnings

import numpy as np

from rtm import catalog, gen
from rtm.props.c18 import environment
from rtm.props.c21 import agree, families, thunks
from rtm.props.c35 import outcome
from rtm.props.common import make_point

TECHNIQUE = ('differential monitor: every operation of the catalogue on contiguous double precision arrays against the '
             'same numbers in other memory layouts, integer types, lists, and as other kinds of scalars')
TOL = 2e-12
OPS = catalog.OPS
ONE_D = ('len', 'ang', 'lat', 'lon', 'num')


class Storage(catalog.Env):
    """a client which stores its numbers in another way"""

    def send(self, kind, x):
        y = catalog.Env.send(self, kind, x)
        return y if y is None else self.store(kind, y)

    def point(self, name, n, z):
        kind = self.kinds.get(name, 'geo')
        if np.ndim(z) == 0 and not self.scalar:
            z = [z]
        if kind == 'geo':
            return self.geo_point(n, z)
        return make_point(self.ctx, kind, self.frame, n, z if np.ndim(z) else np.array([z]), self.R, self.a, self.f,
                          self.scalar)

    def latlon(self, n):
        return [self.store('ang', v) for v in catalog.Env.latlon(self, np.asarray(n, dtype=float))]

    def geo_point(self, n, z):
        from rtm import ref
        from rtm.props.common import to_double
        lat, lon = (to_double(v) for v in ref.n2latlon(np.asarray(n, dtype=float), self.R))
        if self.scalar:
            lat, lon = float(lat[0]), float(lon[0])
        lat, lon = self.store('lat', lat), self.store('lon', lon)
        return self.ctx.do('GeoPoint', self.nv.GeoPoint, lat, lon, z, frame=self.frame)


def client(env, store, **kw):
    out = Storage.__new__(Storage)
    out.__dict__.update(env.__dict__)
    out.store = store
    out.__dict__.update(kw)
    return out


def strided(y):
    big = np.full(y.shape[:-1] + (3 * y.shape[-1],), 777.7)
    big[..., 1::3] = y
    return big[..., 1::3]


def rows(y):
    """first axis strided"""
    big = np.full((2 * y.shape[0],) + y.shape[1:], 777.7)
    big[::2] = y
    return big[::2]


def readonly(y):
    z = np.array(y)
    z.setflags(write=False)
    return z


LAYOUTS = dict(fortran=np.asfortranarray, strided=strided, rows=rows,
               backwards=lambda y: np.array(y[..., ::-1])[..., ::-1],
               upside_down=lambda y: np.array(y[::-1])[::-1],
               readonly=readonly, bigendian=lambda y: y.astype('>f8'), longdouble=lambda y: y.astype(np.longdouble),
               broadcast=lambda y: np.broadcast_to(y[..., :1], y.shape) if (y == y[..., :1]).all() else y)


def pure_layout(name):
    return name != 'longdouble'


def judge(ctx, label, o, got, want, raw, raw0, a, info):
    for k, t in o.outputs.items():
        ctx.eq('same shape for every storage', np.shape(raw[k]), np.shape(raw0[k]), (o.name, k, info))
        kinds = 'b' if t == 'bool' else 'fi'     # what is only passed through may stay an integer
        ctx.true('numbers or truth values', np.asarray(raw[k]).dtype.kind in kinds, (o.name, k, raw[k], raw0[k], info))
    catalog.compare(ctx, label, o, got, want, TOL, a, info)


def layouts(ctx, rng, idx):
    o = OPS[idx % len(OPS)]
    env = environment(ctx, rng, o)
    k = int(rng.choice([1, 2, 3, 4, 6])) if o.vector else 1
    x = catalog.inputs(rng, o, k, env.a)
    want, raw0 = o.run(client(env, lambda t, y: y), x)
    names = sorted(LAYOUTS)
    one = names[rng.integers(len(names))]
    mixed = rng.integers(3) == 0
    used = []

    def store(t, y):
        if np.ndim(y) == 0:
            return y
        name = names[rng.integers(len(names))] if mixed else one
        used.append(name)
        z = LAYOUTS[name](y)
        assert np.array_equal(z, y)
        return z
    other = client(env, store)
    if not o.oo and rng.integers(2):
        other.R = LAYOUTS[('fortran', 'strided', 'rows', 'readonly')[rng.integers(4)]](env.R)
    got, raw = o.run(other, x)
    judge(ctx, 'layout', o, got, want, raw, raw0, env.a, (used, x, env.kinds))
    for name in set(used):
        ctx.tag('layout ' + name)


def lists(ctx, rng, idx):
    """lists and tuples of angles, distances and depths (the fraction of a path is documented as a number)"""
    ops = [o for o in OPS if o.name not in ('Nvector arithmetic', 'ECEF arithmetic', 'unit') and any(
        t in ONE_D and t != 'num' for t in o.inputs.values())]
    o = ops[idx % len(ops)]
    env = environment(ctx, rng, o)
    for p, kind in env.kinds.items():
        if kind == 'nvec':
            env.kinds[p] = 'geo'
    k = int(rng.choice([1, 2, 3, 4, 6])) if o.vector else 1
    x = catalog.inputs(rng, o, k, env.a)
    want, raw0 = o.run(client(env, lambda t, y: y), x)

    def store(t, y):
        if np.ndim(y) != 1 or t not in ONE_D or t == 'num':
            return y
        c = rng.integers(4)
        return y if c == 0 else tuple(y.tolist()) if c == 1 else y.tolist() if c == 2 else list(y)
    got, raw = o.run(client(env, store), x)
    judge(ctx, 'list', o, got, want, raw, raw0, env.a, (x, env.kinds))


def whole(rng, env, o, x):
    """rounds what is going to be sent to whole numbers, in the units in which it is sent"""
    def store(t, y):
        if t in ('len', 'lv'):
            return np.round(y) + 0.
        if t in ONE_D:
            return np.round(y) + 0.
        return y
    return store


INTS = (np.int64, np.int32)


def as_int(rng, y):
    """an integer array with these values, if there is one"""
    if not (np.isfinite(y).all() and (y == np.round(y)).all()):
        return y
    t = INTS[rng.integers(len(INTS))]
    info = np.iinfo(t)
    # room for sums and differences
    if np.abs(y).max() > info.max / 8:
        t = np.int64
    return np.asarray(y).astype(t)


def integers(ctx, rng, idx):
    """whole numbers as integers"""
    o = OPS[idx % len(OPS)]
    env = environment(ctx, rng, o)
    if env.a < 1e4:
        scale = 1e7 / env.a
        env.a = float(round(env.a * scale))
    env.a = float(round(env.a))
    env.f = 0.0 if rng.integers(4) == 0 else env.f
    if not o.oo:
        env.R = (np.eye(3), gen.PERM24[rng.integers(24)].copy())[rng.integers(2)]
    if env.frame is not None:
        env.frame = ctx.do('FrameE', ctx.nv.FrameE, a=env.a, f=env.f, axes=env.axes)
    k = int(rng.choice([1, 2, 3, 4, 6])) if o.vector else 1
    x = catalog.inputs(rng, o, k, env.a)
    vectors = [n for n, t in o.inputs.items() if t == 'n']
    if vectors and rng.integers(3) == 0 and not set(vectors) & {'p', 'q'} and 'bool' not in o.outputs.values():
        # whole-number directions
        eq = gen.AXES6[:, [1, 2, 4, 5]]
        i = rng.integers(4, size=k)
        x['n'] = eq[:, i]
        if 'm' in x:
            x['m'] = eq[:, (i + rng.choice([1, 3], k)) % 4]
    rounded = whole(rng, env, o, x)
    scalar = k == 1 and bool(rng.integers(2)) and o.oo
    base = client(env, rounded, scalar=scalar)
    want, raw0 = o.run(base, x)
    python = bool(rng.integers(2))
    count = [0]

    def store(t, y):
        y = rounded(t, y)
        if np.ndim(y) == 0:
            if float(y) != round(float(y)):
                return y
            count[0] += 1
            return int(y) if python else np.int64(y)
        z = as_int(rng, y)
        count[0] += z.dtype.kind == 'i'
        return z
    other = client(env, store, scalar=scalar)
    if rng.integers(2):
        other.a = int(env.a)
        if env.f == 0:
            other.f = 0
        if env.frame is not None:
            other.frame = ctx.do('FrameE', ctx.nv.FrameE, a=other.a, f=other.f, axes=env.axes)
    if not o.oo and rng.integers(2):
        other.R = np.asarray(env.R).astype(int)
    got, raw = o.run(other, x)
    judge(ctx, 'integer', o, got, want, raw, raw0, env.a, (x, env.kinds, env.degrees, scalar))
    ctx.tag('integer arguments', count[0])


def scalars(ctx, rng, idx):
    """python numbers, numpy scalars and arrays without dimensions"""
    ops = [o for o in OPS if o.oo and any(t in ONE_D for t in o.inputs.values())]
    o = ops[idx % len(ops)]
    env = environment(ctx, rng, o)
    x = catalog.inputs(rng, o, 1, env.a)
    want, raw0 = o.run(client(env, lambda t, y: y, scalar=True), x)

    def store(t, y):
        if np.ndim(y) or t not in ONE_D:
            return y
        c = rng.integers(4)
        return float(y) if c == 0 else np.float64(y) if c == 1 else np.array(float(y)) if c == 2 else np.longdouble(y)
    got, raw = o.run(client(env, store, scalar=True), x)
    judge(ctx, 'kind of scalar', o, got, want, raw, raw0, env.a, (x, env.kinds))


TRUTH = (np.bool_, int, np.int64, lambda b: np.array(b))


def flags(ctx, rng, idx):
    """switches given as other kinds of truth values"""
    ops = [o for o in OPS if o.degrees]
    o = ops[idx % len(ops)]
    env = environment(ctx, rng, o)
    env.degrees = bool(rng.integers(2))
    k = int(rng.choice([1, 1, 2, 3])) if o.vector else 1
    x = catalog.inputs(rng, o, k, env.a)
    scalar = k == 1 and bool(rng.integers(2))
    kind = TRUTH[rng.integers(len(TRUTH))]
    same = lambda t, y: y
    want, raw0 = o.run(client(env, same, scalar=scalar), x)
    got, raw = o.run(client(env, same, scalar=scalar, degrees=kind(env.degrees)), x)
    judge(ctx, 'kind of truth value', o, got, want, raw, raw0, env.a, (x, env.kinds))
    # longitudes unrolled or not
    p = ctx.do('GeoPoint', ctx.nv.GeoPoint, rng.uniform(-1.5, 1.5), rng.uniform(-3.14, 3.14), frame=env.frame)
    q = ctx.do('GeoPoint', ctx.nv.GeoPoint, rng.uniform(-1.5, 1.5), rng.uniform(-3.14, 3.14), frame=env.frame)
    d, az, yes = rng.uniform(-20, 20) * env.a, rng.uniform(-4, 4), bool(rng.integers(2))
    r, b = ctx.do('displace', p.displace, d, az, long_unroll=yes)
    r2, b2 = ctx.do('displace', p.displace, d, az, long_unroll=kind(yes))
    ctx.eq('unrolling for all kinds of truth values', [float(v) for v in (r2.latitude, r2.longitude, b2)],
           [float(v) for v in (r.latitude, r.longitude, b)], (kind(yes), d, az))
    u = ctx.do('distance_and_azimuth', p.distance_and_azimuth, q, long_unroll=yes)
    v = ctx.do('distance_and_azimuth', p.distance_and_azimuth, q, long_unroll=kind(yes))
    ctx.eq('unrolling for all kinds of truth values', [float(i) for i in v], [float(i) for i in u], kind(yes))


class Shared(catalog.Env):
    """a client who passes one object wherever it needs these numbers, in this position"""

    def send(self, kind, x):
        y = catalog.Env.send(self, kind, x)
        return y if np.ndim(y) == 0 else self.one((kind in ('n', 'vec'), np.shape(y), y.tobytes()), lambda: y)

    def point(self, name, n, z):
        kind = self.kinds.get(name, 'geo')
        return self.one((kind, np.asarray(n).tobytes(), np.asarray(z).tobytes()),
                        lambda: catalog.Env.point(self, name, n, z))

    def one(self, key, make):
        if key not in self.known:
            self.known[key] = make()
        self.hits += 1
        return self.known[key]


def shared(ctx, rng, idx):
    """the same array, or the same position, passed more than once in a call against equal copies"""
    o = OPS[idx % len(OPS)]
    env = environment(ctx, rng, o)
    k = int(rng.choice([1, 1, 2, 3])) if o.vector else 1
    x = catalog.inputs(rng, o, k, env.a)
    groups = {}
    for name, t in o.inputs.items():
        groups.setdefault('len' if t == 'len' else 'ang' if t in ('ang', 'lat', 'lon') else t, []).append(name)
    groups = [g for g in groups.values() if len(g) > 1]
    same = groups if rng.integers(2) else [g for g in groups if rng.integers(2)]
    for g in same:
        for name in g[1:]:
            if rng.integers(3):
                x[name] = x[g[0]].copy()
    kinds = dict(env.kinds)
    if kinds and rng.integers(3) and not o.name.startswith('displace'):
        first = kinds['A']
        kinds = {p: first for p in kinds}
    scalar = k == 1 and o.oo and bool(rng.integers(2))
    plain = client(env, None, kinds=kinds, scalar=scalar)
    plain.__class__ = catalog.Env
    other = client(env, None, kinds=kinds, scalar=scalar, known={}, hits=0)
    other.__class__ = Shared
    with np.errstate(all='ignore'), warnings.catch_warnings():
        warnings.simplefilter('ignore')     # coincident ends define no circle
        _want, raw0 = o.run(plain, x)
        _got, raw = o.run(other, x)
    dirs = [x[name].tobytes() for name, t in o.inputs.items() if t == 'n']
    singular = len(set(dirs)) < len(dirs)
    for name, t in o.outputs.items():
        if singular and (t == 'ang' or 'intersect' in o.name):
            continue        # the direction between coinciding positions is rounding error
        g, w = np.asarray(raw[name]), np.asarray(raw0[name])
        ctx.eq('same shape for one object', g.shape, w.shape, (o.name, name, x))
        ok = (g == w) | ((g != g) & (w != w))
        if t in ('ang', 'lat', 'lon', 'len', 'vec', 'lv', 'n', 'R', 'RE', 'num'):
            scale = env.a if t in ('len', 'vec', 'lv') else 360.0 if t in ('ang', 'lat', 'lon') else 1.0
            ok = ok | (np.abs(g - w) <= 1e-15 * scale)
        ctx.true('one object for equal arguments: ' + o.name, ok, (name, g, w, x, kinds, scalar))
    ctx.tag('shared objects', other.hits - len(other.known))


def whole_objects(ctx, rng, idx):
    """objects whose coordinates are whole numbers"""
    nv = ctx.nv
    k = int(rng.choice([1, 1, 2, 3]))
    a = int(rng.choice([6378137, 6371000, 6400000]))
    f = 0.0 if rng.integers(4) == 0 else 1 / 298.257223563
    axes = 'eE'[rng.integers(2)]
    kinds = rng.integers(3, size=4)
    n = np.array([[1, 0, 0], [0, 1, 0], [0, 0, 1], [-1, 0, 0], [0, -1, 0], [0, 0, -1]]).T
    p = np.stack([np.round(gen.normalize(rng.normal(size=(3, k))) * a * rng.uniform(0.99, 1.2)) for _ in range(4)])
    ang = rng.integers(-3, 4, (9, k))
    lat = rng.integers(-1, 2, (4, k))
    z = rng.integers(-20000, 3000, (4, k))
    axis = np.stack([n[:, (rng.integers(6) + np.arange(k)) % 6] for _ in range(4)])
    v3 = rng.integers(-9000, 9000, (3, k))
    scalar = k == 1 and bool(rng.integers(2))
    kind = INTS[rng.integers(2)]
    few = rng.integers(2)

    def questions(store):
        fr = nv.FrameE(a=a if store is int else float(a), f=f, axes=axes)

        def some(x):
            return x.astype(kind if store is int else float)

        def one(x):
            return some(x) if not scalar else store(x[0])

        def point(i):
            if kinds[i] == 0:
                return fr.GeoPoint(one(lat[i]), one(ang[i]), one(z[i]))
            if kinds[i] == 1:
                return fr.Nvector(some(axis[i]), one(z[i]))
            return fr.ECEFvector(some(p[i]), scalar=scalar)
        P, Q, C, D = [point(i) for i in range(4)]
        N, L = nv.FrameN(P), nv.FrameL(P, one(ang[4]))
        B = nv.FrameB(P, one(ang[5]), one(lat[0]), one(ang[6]))
        s = dict(k=k, a=a, P=P, Q=Q, C=C, frame=fr, frame2=nv.FrameE(a=a, f=f, axes=axes), path=nv.GeoPath(P, Q),
                 path2=nv.GeoPath(C, D), N=N, L=L, B=B, d=fr.ECEFvector(some(v3), scalar=scalar),
                 geo=fr.GeoPoint(one(lat[2]), one(ang[2]), one(z[2])), v=fr.Nvector(some(axis[1]), one(z[1])),
                 az=one(ang[7]), dist=one(1000 * ang[8] + 7))
        local = N.Pvector(some(v3))
        out = thunks(nv, s) + [q for g in families(nv, s)[few::2] for q in g]
        for F in (N, L, B):
            w = F.Pvector(some(v3))
            out += [w.to_ecef_vector, w.to_nvector, w.to_geo_point, lambda w=w: w.length, lambda w=w: w.azimuth,
                    lambda w=w: w.elevation_deg]
        E = fr.ECEFvector(some(p[3]), scalar=scalar)
        return out + [E.to_geo_point, E.to_nvector, lambda: E.length, lambda: -E, lambda: E - s['d'], lambda: E + s['d'],
                      lambda: E.change_frame(B), lambda: E.delta_to(P), lambda: local == local, lambda: E == E.to_ecef_vector()]
    with np.errstate(all='ignore'), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for i, (x, y) in enumerate(zip(questions(int), questions(float))):
            got, want = outcome(x), outcome(y)
            if got and isinstance(got[0], str) and '(' in got[0]:       # printed forms
                continue
            ctx.true('whole numbers', agree(got, want, 1e-11), (i, kinds, scalar, kind.__name__, got, want))
    ctx.do('whole', lambda: None)


WORKLOADS = [('shared', shared, 3000, 60000), ('layouts', layouts, 4000, 80000), ('whole', whole_objects, 300, 8000), ('lists', lists, 1500, 30000), ('integers', integers, 4000, 80000),
             ('scalars', scalars, 1500, 30000), ('flags', flags, 800, 16000)]
REQUIRE = ['whole numbers', 'same shape for every storage', 'unrolling for all kinds of truth values', 'kind of scalar: FrameE.inverse', 'kind of scalar: FrameE.direct'] + ['layout: ' + o.name for o in OPS] + ['integer: ' + o.name for o in OPS]
