"""C19: other axes, another zero meridian: the same physics"""
import numpy as np

from rtm import catalog, gen, ref
from rtm.props.common import PI
from rtm.props.c18 import environment, sister

TECHNIQUE = ('metamorphic monitor: every operation of the catalogue in two systems of axes, and with all '
             'positions turned about the axis of the Earth')
TOL = 1e-11
OPS = catalog.OPS


def tolerance(o):
    return TOL


def count(rng, o):
    return 1 if not o.vector else int(rng.choice([1, 2, 3, 3, 4, 5]))


def both(ctx, rng, o):
    """two environments which differ in the axes only"""
    env = environment(ctx, rng, o)
    if o.oo:
        axes = 'E' if env.axes == 'e' else 'e'
        other = catalog.Env(ctx, a=env.a, f=env.f, axes=axes, degrees=env.degrees, kinds=env.kinds)
    else:
        other = sister(env, R=another(rng, env.R))
    return env, other


def another(rng, R):
    for _ in range(100):
        S = ref.R_DEFAULT if rng.integers(4) == 0 else gen.R_Ee(rng)[0]
        if S is None:
            S = ref.R_DEFAULT
        if not np.allclose(S, R):
            return S
    return np.eye(3)


def axes(ctx, rng, idx):
    o = OPS[idx % len(OPS)]
    e1, e2 = both(ctx, rng, o)
    x = catalog.inputs(rng, o, count(rng, o), e1.a)
    r1, _raw = o.run(e1, x)
    r2, _raw = o.run(e2, x)
    catalog.compare(ctx, 'axes', o, r2, r1, tolerance(o), e1.a, (x, e1.kinds, e1.axes))


DIRECT = [o for o in OPS if set(n for n, t in o.inputs.items() if t == 'n') <= set('nm')
          and 'n' in o.inputs.values() and not o.name.startswith(('on_', 'GeoPath.on_'))]


def poles(ctx, rng, idx):
    """at the poles the axes of N, and with them azimuths, are fixed relative to the zero meridian"""
    o = DIRECT[idx % len(DIRECT)]
    e1, e2 = both(ctx, rng, o)
    if not o.oo:    # an exact pole in both systems
        e1, e2 = sister(e1, R=gen.PERM24[rng.integers(24)]), sister(e1, R=gen.PERM24[rng.integers(24)])
    else:
        kinds = {k: 'nvec' for k in e1.kinds}
        e1, e2 = sister(e1, kinds=kinds), sister(e2, kinds=kinds)
    k = count(rng, o)
    x = catalog.inputs(rng, o, k, e1.a)
    if 'm' in x:
        x['m'] = catalog.directions(rng, k, 0.2)
        if not o.columns or rng.integers(2):
            j = rng.integers(k)
            x['n'][:, j] = [rng.choice([-1., 1]), 0, 0]
        else:
            x['n'][:] = np.array([[rng.choice([-1., 1])], [0], [0]])
    else:
        x['n'][:, rng.integers(k)] = [rng.choice([-1., 1]), 0, 0]
    r1, _raw = o.run(e1, x)
    r2, _raw = o.run(e2, x)
    # the longitude of a pole is arbitrary (and so are headings at the pole which follow from it)
    skip = {'lon'} if 'lon' in o.outputs else set()
    if o.name.startswith(('displace', 'FrameE', 'distance_and_azimuth ellipsoid')):
        skip |= {'az', 'aza', 'azb'}
    skip = skip if np.any(np.hypot(x['n'][1], x['n'][2]) == 0) else ()
    catalog.compare(ctx, 'axes at the poles', o, r2, r1, tolerance(o), e1.a, (x, e1.kinds, e1.axes), skip)


def turn(delta):
    """turns canonical directions eastwards"""
    c, s = np.cos(delta), np.sin(delta)
    return np.array([[1, 0, 0], [0, c, -s], [0, s, c]])


def turned(o, x, delta, types):
    M = turn(delta)
    out = {}
    for name, v in x.items():
        t = types[name]
        if t in ('n', 'vec'):
            out[name] = np.ascontiguousarray(np.einsum('ij,jk->ik', M, v))
        elif t == 'RE':
            out[name] = np.einsum('ij,jkl->ikl', M, v)
        elif t == 'lon':
            out[name] = v + delta
        else:
            out[name] = v
    return out


def meridian(ctx, rng, idx):
    o = OPS[idx % len(OPS)]
    if 'n' not in o.inputs.values() and 'lon' not in o.inputs.values():
        return
    env = environment(ctx, rng, o)
    x = catalog.inputs(rng, o, count(rng, o), env.a)
    if rng.integers(2) and 'n' in x:     # exactly or nearly onto the antimeridian
        lon = np.arctan2(x['n'][1, 0], -x['n'][2, 0])
        delta = PI - lon + rng.choice([0, 1e-9, -1e-9])
    else:
        delta = rng.uniform(-PI, PI)
    r1, _raw = o.run(env, x)
    r2, _raw = o.run(env, turned(o, x, delta, o.inputs))
    catalog.compare(ctx, 'meridian', o, r2, turned(o, r1, delta, o.outputs), tolerance(o), env.a,
                    (delta, x, env.kinds, env.axes))


WORKLOADS = [('axes', axes, 5000, 100000), ('poles', poles, 1500, 30000), ('meridian', meridian, 4000, 80000)]
REQUIRE = ['axes: ' + o.name for o in OPS] + ['meridian: ' + o.name for o in OPS if 'n' in o.inputs.values()]
