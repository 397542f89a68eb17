"""C22: positions in different frames are not mixed"""
import copy

import numpy as np

from rtm import catalog, gen, ref
from rtm.props.c21 import image
from rtm.props.common import KINDS, make_point

TECHNIQUE = ('misuse monitor: every operation on two positions, in every combination of representations, with frames '
             'which differ in one parameter (must raise ValueError) and with equal distinct frames (must not)')


NAMES = ('WGS84', 'WGS84', 'GRS80', 'WGS 72', 'Airy 1830', 'mine')


def frames(ctx, rng, same):
    """two frame objects, equal or different in exactly one of a, f, axes"""
    nv = ctx.nv
    a, f = gen.ellipsoid(rng)
    ax = ('e', 'E')[rng.integers(2)]
    if rng.integers(3) == 0:        # default frame
        a, f, ax = gen.WGS84[0], gen.WGS84[1], 'e'
    names = [NAMES[i] for i in rng.integers(len(NAMES), size=2)]    # the label of a frame decides nothing
    F = ctx.do('FrameE', nv.FrameE, a=a, f=f, axes=ax, name=names[0])
    if same:
        what = rng.integers(4)
        if what == 0 and (a, f, ax) == gen.WGS84 + ('e',):
            G = None                # whatever is used if no frame is given
        elif what == 1:
            G = ctx.do('FrameE', nv.FrameE, a=a * (1 + 2e-16), f=f * (1 - 2e-16), axes=ax, name='WGS 72')
        elif what == 2:
            G = copy.deepcopy(F)
        else:
            G = ctx.do('FrameE', nv.FrameE, f=f, a=a, axes=ax, name=names[1])
        return F, G, 'same {}'.format(what), (a, f, ax)
    what = ('a', 'f', 'axes')[rng.integers(3)]
    eps = 10.0 ** -rng.uniform(0, 9)
    tiny = f and f < 1e-4
    b, g, ay = a, f, ax
    if what == 'a':
        b = a * (1 + eps * gen.sign(rng, 1)[0] * 0.5)
    elif what == 'f':
        g = f + 0.01 * eps if tiny or not f else f * (1 + eps * 0.5)
        if rng.integers(5) == 0:
            g = 0 if f and not tiny else 1 / 298.257223563
    else:
        ay = 'E' if ax == 'e' else 'e'
    G = ctx.do('FrameE', nv.FrameE, a=float(b), f=float(g), axes=ay, name=names[1])
    ctx.tag('names differ' if names[0] != names[1] else 'names equal')
    return F, G, what, (a, f, ax)


def geo(P):
    return P.to_geo_point()


def local(kind):
    def fn(nv, P, Q):
        d = P.to_ecef_vector()
        F = nv.FrameN(Q) if kind == 'N' else nv.FrameL(Q, 0.5) if kind == 'L' else nv.FrameB(Q, 0.1, 0.2, 0.3)
        return d.change_frame(F)
    return fn


OPERATIONS = dict(
    delta_E=lambda nv, P, Q: nv.delta_E(P, Q),
    delta_N=lambda nv, P, Q: nv.delta_N(P, Q),
    delta_L=lambda nv, P, Q: nv.delta_L(P, Q, 0.2),
    delta_to=lambda nv, P, Q: P.delta_to(Q),
    add_ecef=lambda nv, P, Q: P.to_ecef_vector() + Q.to_ecef_vector(),
    sub_ecef=lambda nv, P, Q: P.to_ecef_vector() - Q.to_ecef_vector(),
    add_nvector=lambda nv, P, Q: P.to_nvector() + Q.to_nvector(),
    sub_nvector=lambda nv, P, Q: P.to_nvector() - Q.to_nvector(),
    distance_ellipsoid=lambda nv, P, Q: geo(P).distance_and_azimuth(Q),
    distance_greatcircle=lambda nv, P, Q: geo(P).distance_and_azimuth(Q, method='greatcircle'),
    distance_degrees=lambda nv, P, Q: geo(P).distance_and_azimuth(Q, degrees=True, long_unroll=True),
    track_ellipsoid=lambda nv, P, Q: nv.GeoPath(P, Q).track_distance(method='ellipsoid'),
    on_path_ellipsoid=lambda nv, P, Q: nv.GeoPath(P, P).on_path(Q, method='ellipsoid'),
    change_frame_N=local('N'), change_frame_L=local('L'), change_frame_B=local('B'),
    add_local=lambda nv, P, Q: Q.to_ecef_vector() + nv.FrameN(P).Pvector(np.array([[1.], [2], [3]])).to_ecef_vector(),
    sum_of_delta=lambda nv, P, Q: P.to_ecef_vector() + nv.delta_E(Q, Q),
)


def pair(ctx, rng, F, G, spec):
    a, f, ax = spec
    R = ref.R_AXES[ax]
    k = int(rng.choice([1, 1, 2, 3]))
    n = catalog.directions(rng, k)
    m = n if rng.integers(3) == 0 else catalog.directions(rng, k)    # also: the same numbers
    z = rng.uniform(-1e-2, 1e-3, k) * a * rng.integers(2)
    w = z if rng.integers(3) == 0 else rng.uniform(-1e-2, 1e-3, k) * a
    scalar = k == 1 and bool(rng.integers(2))
    one, two = KINDS[rng.integers(3)], KINDS[rng.integers(3)]
    P = make_point(ctx, one, F, np.ascontiguousarray(R.T @ n), z, R, a, f, scalar)
    Q = make_point(ctx, two, G, np.ascontiguousarray(R.T @ m), w, R, a, f, scalar)
    return P, Q, one, two


def case(ctx, rng, idx):
    names = sorted(OPERATIONS)
    name = names[idx % len(names)]
    same = bool(rng.integers(3) == 0)
    F, G, what, spec = frames(ctx, rng, same)
    P, Q, one, two = pair(ctx, rng, F, G, spec)
    if rng.integers(2):
        P, Q = Q, P
    img = image((P, Q))
    if same:
        result, error = ctx.attempt(name, OPERATIONS[name], ctx.nv, P, Q)
        ctx.eq('equal frames accepted: ' + name, error, None, (P, Q))
    else:
        ctx.raises('different frames refused: ' + name, ValueError, OPERATIONS[name], ctx.nv, P, Q)
    ctx.eq('objects untouched', image((P, Q)), img, name)
    ctx.tag('frames: ' + what)
    ctx.tag('{}-{}'.format(one, two))


def result_frames(ctx, rng, idx):
    """results belong to the frame of their arguments"""
    nv = ctx.nv
    F, G, what, spec = frames(ctx, rng, True)
    P, Q, _one, _two = pair(ctx, rng, F, G, spec)
    results = ctx.do('operations', lambda: [
        P.to_ecef_vector() + Q.to_ecef_vector(), P.to_nvector() - Q.to_nvector(), nv.delta_E(P, Q),
        -P.to_ecef_vector(), -P.to_nvector(), P.to_nvector() * 2, P.to_nvector() / 2, P.to_nvector().mean(),
        geo(P).displace(1e-3 * spec[0], 0.3)[0], geo(P).displace(1e-3 * spec[0], 0.3, method='greatcircle')[0],
        nv.GeoPath(P, Q).interpolate(0.5), nv.GeoPath(P, Q).closest_point_on_great_circle(P),
        nv.delta_N(P, Q).to_ecef_vector(), nv.delta_L(P, Q).to_nvector(), nv.delta_N(P, Q).to_geo_point(),
        P.to_geo_point(), P.to_nvector(), P.to_ecef_vector()])
    for r in results:
        ctx.true('results keep the frame', r.frame == P.frame, (r, P))
        R = ref.R_AXES[spec[2]]
        ctx.true('results keep the frame', abs(r.frame.a - spec[0]) <= 1e-14 * spec[0]
                 and abs(r.frame.f - spec[1]) <= 1e-14 and np.array_equal(r.frame.R_Ee, R), (r, spec))
    local = ctx.do('local', lambda: [(nv.delta_N(P, Q), nv.FrameN), (nv.delta_L(P, Q, 0.1), nv.FrameL),
                                     (P.delta_to(Q), nv.FrameN)])
    for d, cls in local:
        ctx.true('delta belongs to the local frame', type(d.frame) is cls and d.frame.nvector.frame == P.frame, d)


WORKLOADS = [('case', case, 6000, 120000), ('result_frames', result_frames, 400, 8000)]
REQUIRE = ['different frames refused: ' + n for n in OPERATIONS] + ['equal frames accepted: ' + n for n in OPERATIONS]
