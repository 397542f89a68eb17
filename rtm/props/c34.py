"""C34: incompatible numbers of positions"""
import numpy as np

from rtm import catalog
from rtm.props.c18 import environment

TECHNIQUE = ('fault injection: every operation of the catalogue with one argument of another length; monitor that the '
             'call is refused with ValueError, and that it works again afterwards')
OPS = [o for o in catalog.OPS if o.vector and len(o.inputs) > 1]


def groups(o):
    """arguments which have a length of their own: whole positions, and all others"""
    out = []
    used = set()
    for key in o.points.values():
        names = key.split(',')
        used.update(names)
        out.append(tuple(n for n in names if n in o.inputs))
    out += [(n,) for n in o.inputs if n not in used]
    return out


def lengths(rng):
    """two different lengths, neither of them one, so that they do not broadcast"""
    a, b = rng.choice([2, 3, 4, 5, 6, 8, 9, 12], 2, replace=False)
    return int(a), int(b)


class Mixed(catalog.Env):
    """everything is made before the operation, as a client would have it at hand"""


def mismatch(ctx, rng, idx):
    o = TARGETS[idx % len(TARGETS)][0]
    group = TARGETS[idx % len(TARGETS)][1]
    env = environment(ctx, rng, o)
    k, m = lengths(rng)
    x, y = catalog.inputs(rng, o, k, env.a), catalog.inputs(rng, o, m, env.a)
    z = dict(x)
    for n in group:
        z[n] = y[n]
    env.op = o
    sent = {n: env.send(o.inputs[n], v) for n, v in z.items()}
    # outside the recorder: Ctx.do would turn the expected exception into a violation
    loose = Loose.__new__(Loose)
    loose.__dict__.update(env.__dict__)
    loose.ctx = Unrecorded(ctx.nv)
    label = 'refused: {} with other {}'.format(o.name, '+'.join(group))
    ctx.raises(label, (ValueError,), o.fn, loose, sent)
    if rng.integers(4) == 0:
        got, _raw = o.run(env, x)
        ctx.true('works with the right lengths', all(v.shape[-1] == k for v in got.values()), (o.name, got))
    ctx.tag('{} and {}'.format(*sorted((k, m))))


class Unrecorded(object):
    def __init__(self, nv):
        self.nv = nv

    def do(self, _label, fn, *args, **kwds):
        return fn(*args, **kwds)


class Loose(catalog.Env):
    def do(self, fn, *args, **kwds):
        return fn(*args, **kwds)


# operations whose harness combines the arguments itself before the library sees them
SKIP = {('on_great_circle', 'n'), ('on_great_circle', 'm'), ('on_great_circle', 't'),
        ('on_great_circle_path', 'n'), ('on_great_circle_path', 'm'), ('on_great_circle_path', 't'),
        ('GeoPath.on_great_circle', 't'), ('GeoPath.on_path', 't'), ('R_EL2n_E', 'n'), ('R_EL2n_E', 'az'),
        ('p_EB_E2n_EB_E', 'n'), ('p_EB_E2n_EB_E', 'z'), ('unit', 'n'), ('unit', 't'),
        ('R2xyz', 'x'), ('R2xyz', 'y'), ('R2xyz', 'z'), ('R2zyx', 'x'), ('R2zyx', 'y'), ('R2zyx', 'z'),
        ('mdot', 'x'), ('mdot', 'y'), ('mdot', 'z'), ('n_EA_E_and_p_AB_E2n_EB_E', 'm'),
        ('n_EA_E_and_p_AB_E2n_EB_E', 'w')}
TARGETS = [(o, g) for o in OPS for g in groups(o) if (o.name, g[0]) not in SKIP and len(groups(o)) > 1]


NAMES = ('on_great_circle', 'on_great_circle path', 'on_great_circle_path', 'on_great_circle_path path',
         'GeoPath.on_great_circle', 'GeoPath.on_path', 'GeoPath.on_path ellipsoid', 'mdot', 'n_EA_E_and_p_AB_E2n_EB_E',
         'GeoPoint', 'GeoPoint depth', 'GeoPoint depth, no frame', 'GeoPoint latitude', 'GeoPoint longitude',
         'interp_nvectors', 'Nvector.interpolate')


def predicates(ctx, rng, idx):
    """arguments which the catalogue builds from others"""
    nv = ctx.nv
    k, m = lengths(rng)
    o = catalog.BY_NAME['GeoPath.intersect']
    x, y = catalog.inputs(rng, o, k, 1.), catalog.inputs(rng, o, m, 1.)
    fr = nv.FrameE()
    P = lambda v, n, z: fr.Nvector(v[n], v[z])
    A, B, C = P(x, 'n', 'z'), P(x, 'm', 'w'), P(y, 'p', 'v')
    which = idx % len(NAMES)
    R = nv.xyz2R(x['z'], x['w'], x['v'])
    S = nv.xyz2R(y['z'], y['w'], y['v'])
    calls = [('on_great_circle', nv.on_great_circle, ((x['n'], x['m']), y['p'])),
             ('on_great_circle path', nv.on_great_circle, ((x['n'], y['m']), x['p'])),
             ('on_great_circle_path', nv.on_great_circle_path, ((x['n'], x['m']), y['p'])),
             ('on_great_circle_path path', nv.on_great_circle_path, ((x['n'], y['m']), x['p'])),
             ('GeoPath.on_great_circle', nv.GeoPath(A, B).on_great_circle, (C,)),
             ('GeoPath.on_path', nv.GeoPath(A, B).on_path, (C,)),
             ('GeoPath.on_path ellipsoid', nv.GeoPath(A, B).on_path, (C, 'ellipsoid')),
             ('mdot', nv.mdot, (R, S)),
             ('n_EA_E_and_p_AB_E2n_EB_E', nv.n_EA_E_and_p_AB_E2n_EB_E, (x['n'], y['p'] * 1e6)),
             ('GeoPoint', fr.GeoPoint, (x['z'], y['z'], 0)),
             ('GeoPoint depth', fr.GeoPoint, (x['z'] / 1e3, x['w'] / 1e3, y['z'])),
             ('GeoPoint depth, no frame', nv.GeoPoint, (x['z'] / 1e3, x['w'] / 1e3, y['z'])),
             ('GeoPoint latitude', fr.GeoPoint, (y['z'], 0.5, x['z'])),
             ('GeoPoint longitude', fr.GeoPoint, (0.5, y['z'], x['z'])),
             ('interp_nvectors', nv.interp_nvectors, (np.array([0.5]), np.arange(float(k)), y['n'])),
             ('Nvector.interpolate', fr.Nvector(y['n'], y['z']).interpolate, (np.array([0.5]), np.arange(float(k))))]
    name, fn, args = calls[which]
    ctx.raises('refused: ' + name, (ValueError,), fn, *args)


WORKLOADS = [('mismatch', mismatch, 4000, 80000), ('predicates', predicates, 800, 8000)]
REQUIRE = ['refused: {} with other {}'.format(o.name, '+'.join(g)) for o, g in TARGETS] + ['refused: ' + n for n in NAMES] + ['works with the right lengths']
