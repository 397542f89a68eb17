"""C37: failed and interrupted calls"""
import ast
import copy
import sys
import warnings

import numpy as np

from rtm import catalog, gen
from rtm.props.c18 import environment
from rtm.props.c21 import (LIBRARY, OPS, TOL, Unrecorded, Watched, _same, agree, cast, count, families, image,
                           numbers, settings, tables, thunks, watched)

TECHNIQUE = ('fault injection: a call into the library fails at a call it makes, chosen by the seed (interrupt, out of '
             'memory), or is refused; monitors compare the objects, arguments, tables and settings before and after, and '
             'all later answers with those of a copy which was never interrupted')

# functions whose job is to put things back; failing those proves nothing about the library
RESTORE = {'__enter__', '__exit__', '__del__', 'seterr', 'seterrcall', 'geterr', 'setbufsize', 'errstate', 'catch_warnings',
           'warn', 'simplefilter', 'filterwarnings', 'resetwarnings', 'set_printoptions', 'printoptions', 'acquire',
           'release', 'setstate', 'set_state', 'seed', 'close', 'pop', 'setattr', 'update', 'clear', 'reset'}


class Stop(BaseException):
    """an interrupt of some sort"""


PLAIN = {}


def plain_lines(path):
    """lines which start an ordinary statement: not those which put things back or are about to arrange for it"""
    if path not in PLAIN:
        with open(path) as fid:
            tree = ast.parse(fid.read())
        out = set()

        def walk(body):
            for st, following in zip(body, body[1:] + [None]):
                if isinstance(st, (ast.With, ast.Try, ast.FunctionDef, ast.ClassDef)):
                    if isinstance(st, ast.Try):
                        walk(st.body)       # not the handlers, nor the end
                    else:
                        walk(st.body)
                    continue
                out.add(st.lineno)
                for part in ('body', 'orelse'):
                    walk(getattr(st, part, []))
        walk(tree.body)
        PLAIN[path] = out
    return PLAIN[path]


class Fault(object):
    """raises at the n-th call made in or by the library, or before its n-th statement"""

    def __init__(self, at, error, when):
        self.at, self.error, self.when = at, error, when
        self.seen = 0
        self.where = None
        self.inside = None

    def __call__(self, frame, event, arg):
        if self.where is not None or event.endswith('exception'):
            return
        code = frame.f_code
        if self.inside is not None:         # within a function which puts things back
            if event == 'return' and frame is self.inside:
                self.inside = None
            return
        if event in ('call', 'return'):
            name = code.co_name
            ours = code.co_filename.startswith(LIBRARY) or (
                frame.f_back is not None and frame.f_back.f_code.co_filename.startswith(LIBRARY))
        else:
            name = getattr(arg, '__name__', '')
            ours = code.co_filename.startswith(LIBRARY)
        if name in RESTORE:
            if event == 'call':
                self.inside = frame
            return
        if not ours or event.endswith('return') != (self.when == 'after'):
            return
        self.seen += 1
        if self.seen == self.at:
            self.where = '{}:{} {} {}'.format(code.co_filename.rsplit('/', 1)[-1], frame.f_lineno, event, name)
            raise self.error

    def trace(self, frame, event, arg):
        """statements"""
        if self.where is not None or not frame.f_code.co_filename.startswith(LIBRARY):
            return None
        if event == 'line' and frame.f_lineno in plain_lines(frame.f_code.co_filename):
            self.seen += 1
            if self.seen == self.at:
                self.where = '{}:{} statement {}'.format(frame.f_code.co_filename.rsplit('/', 1)[-1], frame.f_lineno,
                                                         frame.f_code.co_name)
                raise self.error
        return self.trace

    def run(self, fn):
        """(value, exception)"""
        start, hook = (sys.settrace, self.trace) if self.when == 'between' else (sys.setprofile, self)
        start(hook)
        try:
            out = fn(), None
        except (Exception, Stop, KeyboardInterrupt) as error:
            out = None, error
        finally:
            start(None)
        return out


def fault(rng, fn):
    """a fault somewhere in fn; calls fn once to see how long it is, unless it does not care"""
    error = (Stop('stop'), KeyboardInterrupt('interrupt'), MemoryError('memory'), RuntimeError('failure'))[rng.integers(4)]
    when = ('before', 'after', 'between')[rng.integers(3)]
    if fn is None:
        return Fault(int(np.exp(rng.uniform(0, 5))), error, when)
    dry = Fault(0, error, when)
    dry.run(fn)
    return Fault(int(rng.integers(1, max(dry.seen, 1) + 1)), error, when)


def everything(ctx, s, some):
    """questions to a cast"""
    fr, g, h = s['frame'], s['geo'], s['Q'].to_geo_point()
    return thunks(ctx.nv, s) + [q for i in some for q in families(ctx.nv, s)[i]] + [
        lambda: fr.direct(g.latitude, g.longitude, s['az'], s['dist']),
        lambda: fr.inverse(g.latitude, g.longitude, h.latitude, h.longitude), lambda: s['path2'].track_distance(),
        lambda: s['path2'].intersect(s['path']), lambda: s['C'].delta_to(s['Q'])] + [
            q for r in s['raw'] for q in (r.mean, r.to_geo_point, r.to_ecef_vector, r.to_nvector, lambda r=r: r == s['raw'][0],
                                          lambda r=r: r + s['raw'][0], lambda r=r: ctx.nv.delta_N(r, s['Q']),
                                          lambda r=r: ctx.nv.delta_E(r, s['Q']), lambda r=r: ctx.nv.FrameN(r).R_EN)]


def unfinished(ctx, rng, s):
    """n-vectors which the client has not normalised"""
    k = s['k']
    s['raw'] = [ctx.do('Nvector', ctx.nv.Nvector, gen.nvec(rng, k) * rng.uniform(0.2, 5, k), rng.uniform(-5, 5, k), s['frame'])
                for _ in range(2)]
    return s


def answer(fn):
    """numbers, or the kind of refusal"""
    try:
        return numbers(fn())
    except (ValueError, TypeError, ZeroDivisionError, FloatingPointError, IndexError, AttributeError) as error:
        return [type(error).__name__]


def interrupted(ctx, rng, idx):
    """questions to objects fail somewhere; the same objects are asked again"""
    k = int(rng.choice([1, 1, 2, 3]))
    s = unfinished(ctx, rng, cast(ctx, rng, k)[0])
    twin = copy.deepcopy(s)
    dry = copy.deepcopy(s)
    some = [int(i) for i in rng.choice(14, 2, replace=False)]
    ask, fresh, test = (everything(ctx, x, some) for x in (s, twin, dry))
    ctx.do('objects', dict, s)
    for _ in range(12):
        i = int(rng.integers(len(ask)))
        img, before, table = image(s), settings(), tables(ctx.nv)
        trap = fault(rng, test[i] if rng.integers(4) else None)
        state = dict(zip(('divide', 'over', 'under', 'invalid'), (str(v) for v in rng.choice(['ignore', 'warn'], 4))))
        with np.errstate(**state):
            during = settings()
            _value, error = trap.run(ask[i])
            ctx.true('settings untouched by a failure', _same(during, settings()), trap.where)
        if trap.where is None:
            ctx.tag('ended before the fault')
        else:
            ctx.tag('failed {} {}'.format(trap.when, 'statements' if trap.when == 'between' else 'the call'))
            if not isinstance(trap.error, Exception):
                ctx.true('interrupts reach the caller', error is trap.error, (trap.where, error))
        ctx.eq('objects untouched by a failure', image(s), img, trap.where)
        ctx.eq('tables untouched by a failure', tables(ctx.nv), table, trap.where)
        ctx.true('settings untouched by a failure', _same(before, settings()), trap.where)
        which = [i] + [int(j) for j in rng.integers(len(ask), size=4)]
        for j in which:
            got, want = ctx.do('question', answer, ask[j]), answer(fresh[j])
            ctx.true('answers after a failure', agree(got, want, TOL), (trap.where, i, j, got, want))
    for j in range(len(ask)):
        got, want = answer(ask[j]), answer(fresh[j])
        ctx.true('answers after failures', agree(got, want, TOL), (j, got, want))


class Quiet(Watched):
    """watches arguments, does not report exceptions"""

    def do(self, fn, *args, **kwds):
        return fn(*args, **kwds)


def quiet(rng, env, nv):
    out = Quiet.__new__(Quiet)
    out.__dict__.update(watched(rng, env).__dict__)
    out.ctx = Unrecorded(nv)
    return out


def operations(ctx, rng, idx):
    """any operation fails somewhere, and is then repeated"""
    o = OPS[idx % len(OPS)]
    nv = ctx.nv
    env = environment(ctx, rng, o)
    x = catalog.inputs(rng, o, count(rng, o), env.a)
    want = copy.deepcopy(o.run(env, x)[0])
    state = dict(zip(('divide', 'over', 'under', 'invalid'), (str(v) for v in rng.choice(['ignore', 'warn'], 4))))
    table = tables(nv)
    for _ in range(3):
        trap = fault(rng, (lambda: o.run(quiet(rng, env, nv), x)) if rng.integers(4) else None)
        mine = quiet(rng, env, nv)
        with np.errstate(**state):
            before = settings()
            _value, error = trap.run(lambda: o.run(mine, x))
            ctx.true('settings untouched by a failure', _same(before, settings()), (o.name, trap.where))
        ctx.tag('operation failed' if trap.where else 'ended before the fault')
        if trap.where and not isinstance(trap.error, Exception):
            ctx.true('interrupts reach the caller', error is trap.error, (o.name, trap.where, error))
        for obj, img in mine.seen:
            ctx.eq('arguments untouched by a failure', image(obj), img, (o.name, trap.where))
        ctx.eq('tables untouched by a failure', tables(nv), table, (o.name, trap.where))
        got = o.run(env, x)[0]
        catalog.compare(ctx, 'after a failure', o, got, want, TOL, env.a, (trap.where, x, env.kinds))


class Broken(object):
    """looks like a position, and fails"""

    def __init__(self, rng, frame):
        self.rng, self.frame = rng, frame

    def fail(self, *_args, **_kwds):
        raise (ValueError, RuntimeError, KeyError)[self.rng.integers(3)]('broken')

    to_nvector = to_ecef_vector = to_geo_point = __array__ = __float__ = __len__ = __iter__ = __add__ = __mul__ = fail
    __radd__ = __rmul__ = __neg__ = __getitem__ = fail
    normal = z = pvector = latitude = longitude = point_a = R_EN = R_EL = nvector = property(fail)


def refused(ctx, rng, idx):
    """calls with arguments which make no sense"""
    nv = ctx.nv
    k = int(rng.choice([1, 2, 3]))
    s = unfinished(ctx, rng, cast(ctx, rng, k)[0])
    twin = copy.deepcopy(s)
    some = [int(i) for i in rng.choice(14, 2, replace=False)]
    ask, fresh = everything(ctx, s, some), everything(ctx, twin, some)
    broken = Broken(rng, s['frame'])
    other = nv.FrameE(a=3, f=0.1)
    strange = nv.GeoPoint(0.1, 0.2, frame=other)

    def junk():
        j = [None, 'x', object(), broken, {}, [], np.zeros(0), np.zeros((2, 7)), np.zeros((3, 5)), np.zeros(11),
             ['a', 'b'], np.nan, np.inf, 1e308, -1, 1j, strange, other, nv.GeoPath(strange, strange), np.array(['q']),
             np.full((3, k), np.nan), lambda: 0, b'x', 10**400, np.float32(3), True]
        return j[rng.integers(len(j))]
    P, Q, C, fr, path, v, d, g = (s[n] for n in ('P', 'Q', 'C', 'frame', 'path', 'v', 'd', 'geo'))
    names = 'latitude longitude z normal pvector frame'.split()
    bad = [lambda: nv.delta_E(P, junk()), lambda: nv.delta_E(junk(), P), lambda: nv.delta_N(P, junk()),
           lambda: nv.delta_L(P, Q, junk()), lambda: P.delta_to(junk()), lambda: nv.FrameN(junk()),
           lambda: nv.FrameL(P, junk()), lambda: nv.FrameB(P, junk(), junk(), 0), lambda: nv.FrameB(junk(), 0, 0, 0),
           lambda: d.change_frame(junk()), lambda: d + junk(), lambda: d - junk(), lambda: d * junk(),
           lambda: P + junk(), lambda: junk() + P, lambda: g.displace(junk(), junk()), lambda: v * junk(),
           lambda: v + junk(), lambda: v / junk(), lambda: g.displace(s['dist'], s['az'], method=junk()),
           lambda: g.distance_and_azimuth(junk()), lambda: g.distance_and_azimuth(Q, method=junk()),
           lambda: path.track_distance(method=junk()), lambda: path.track_distance(radius=junk()),
           lambda: path.cross_track_distance(junk()), lambda: path.cross_track_distance(C, radius=junk()),
           lambda: path.interpolate(junk()), lambda: path.on_path(junk()), lambda: path.on_path(C, rtol=junk()),
           lambda: path.on_great_circle(junk()), lambda: path.closest_point_on_great_circle(junk()),
           lambda: path.closest_point_on_path(junk()), lambda: path.intersect(junk()), lambda: path.intersect(path),
           lambda: nv.GeoPath(P, junk()).intersect(path), lambda: nv.GeoPath(junk(), P).track_distance(),
           lambda: fr.GeoPoint(junk(), junk()), lambda: fr.Nvector(junk()), lambda: fr.ECEFvector(junk()),
           lambda: fr.direct(junk(), 0, 0, junk()), lambda: fr.inverse(junk(), 0, junk(), 0), lambda: P == junk(),
           lambda: fr == junk(), lambda: s['N'] == junk(), lambda: s['N'].Pvector(junk()).to_ecef_vector(),
           lambda: v.interpolate(junk(), junk()), lambda: v.interpolate(0.5, np.arange(k), kind=junk()),
           lambda: v.interpolate(0.5, np.arange(k), window_length=junk()), lambda: nv.n_E_and_wa2R_EL(junk(), junk()),
           lambda: nv.n_EB_E2p_EB_E(junk(), junk()), lambda: nv.p_EB_E2n_EB_E(junk()), lambda: nv.unit(junk()),
           lambda: nv.lat_lon2n_E(junk(), junk()), lambda: nv.n_E2lat_lon(junk()), lambda: nv.mean_horizontal_position(junk()),
           lambda: nv.E_rotation(junk()), lambda: nv.get_ellipsoid(junk()), lambda: nv.FrameE(name=junk()),
           lambda: nv.FrameE(a=junk(), f=junk()), lambda: nv.FrameE(axes=junk()), lambda: path.point_a.displace(junk(), 0),
           lambda: getattr(P, 'no_' + names[rng.integers(6)]), lambda: nv.great_circle_distance(junk(), junk()),
           lambda: nv.intersect(junk(), junk()), lambda: nv.closest_point_on_great_circle(junk(), junk())]
    ctx.do('objects', dict, s)
    img, before, table = image(s), settings(), tables(nv)
    actions = ['ignore', 'always', 'error']
    for step in range(25):
        i = int(rng.integers(len(bad)))
        if rng.integers(4) == 0:        # a fair question, in a world that does not forgive
            fn = ask[rng.integers(len(ask))]
        else:
            fn = bad[i]
        state = dict(zip(('divide', 'over', 'under', 'invalid'), rng.choice(['ignore', 'raise'], 4)))
        with warnings.catch_warnings(record=True), np.errstate(**state):
            warnings.simplefilter(actions[rng.integers(3)])
            try:
                fn()
                ctx.tag('answered')
            except Exception as error:      # whether it should fail is decided elsewhere
                ctx.tag('refused: ' + type(error).__name__)
        ctx.eq('objects untouched by a refusal', image(s), img, i)
        ctx.eq('tables untouched by a refusal', tables(nv), table, i)
        j = int(rng.integers(len(ask)))
        got, want = answer(ask[j]), answer(fresh[j])
        ctx.true('answers after a refusal', agree(got, want, TOL), (i, j, got, want))
    ctx.true('settings untouched by refusals', _same(before, settings()), None)


def in_place(ctx, rng, idx):
    """an interrupted normalisation is either done or not"""
    nv = ctx.nv
    k = gen.ncols(rng)
    raw = gen.nvec(rng, k) * rng.uniform(0.2, 5, k)
    v = ctx.do('Nvector', nv.Nvector, np.array(raw), 5.0)
    trap = fault(rng, lambda: nv.Nvector(np.array(raw), 5.0).unit())
    trap.run(v.unit)
    ok = np.array_equal(v.normal, raw) or np.abs(v.normal - gen.normalize(raw)).max() < 1e-14
    ctx.true('normalised or not', bool(ok), (trap.where, raw, v.normal))
    ctx.eq('depth untouched by a failure', v.z, 5.0)
    ctx.do('unit', v.unit)
    ctx.close('normalised after a failure', v.normal, gen.normalize(raw), 1e-14, raw)


WORKLOADS = [('interrupted', interrupted, 250, 8000), ('operations', operations, 900, 20000), ('refused', refused, 300, 8000),
             ('in_place', in_place, 100, 2000)]
REQUIRE = ['interrupts reach the caller', 'objects untouched by a failure', 'answers after a failure', 'answers after failures',
           'arguments untouched by a failure', 'settings untouched by a failure', 'objects untouched by a refusal',
           'answers after a refusal', 'normalised or not', 'normalised after a failure'] + [
               'after a failure: ' + o.name for o in OPS]
