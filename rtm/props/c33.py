"""C33: copies and pickles"""
import copy
import pickle

import numpy as np

from rtm import gen, ref
from rtm.props.c02 import depth
from rtm.props.c21 import image
from rtm.props.common import KINDS, frame, make_point

TECHNIQUE = ('differential monitor: copies, deep copies and pickles of objects against the originals, before and after '
             'one of the two is modified, alone and inside containers')


def dup(rng):
    how = rng.integers(4)
    if how == 0:
        return 'copy', copy.copy
    if how == 1:
        return 'deepcopy', copy.deepcopy
    proto = int(rng.integers(2, pickle.HIGHEST_PROTOCOL + 1))
    if how == 2:
        return 'pickle', lambda x: pickle.loads(pickle.dumps(x, protocol=proto))
    return 'pickle inside', lambda x: pickle.loads(pickle.dumps({'a': [x, x]}, protocol=proto))['a'][1]


def world(ctx, rng):
    nv = ctx.nv
    fr, a, f, R, ax = frame(ctx, rng)
    given = fr
    if rng.integers(4) == 0:        # no frame given
        given, fr = None, ctx.do('FrameE', nv.FrameE)
        a, f, R = 6378137.0, 1 / 298.257223563, ref.R_DEFAULT
        ctx.tag('default frame')
    k = int(rng.choice([1, 1, 2, 3, 5, 12, 40]))
    n, m = gen.generic_pair(rng, k, 0.05, 2.5)
    z, w = depth(rng, n, a, f, R), gen.depth(rng, k, a, deep=False)
    scalar = k == 1 and bool(rng.integers(2))
    A = make_point(ctx, KINDS[rng.integers(3)], given, n, z, R, a, f, scalar)
    B = make_point(ctx, KINDS[rng.integers(3)], given, m, w, R, a, f, scalar)
    ang = gen.angle(rng, k), gen.angle(rng, k) / 4, gen.angle(rng, k)
    local = [ctx.do('FrameN', nv.FrameN, A), ctx.do('FrameL', nv.FrameL, A, ang[0]),
             ctx.do('FrameB', nv.FrameB, A, *ang)]
    return nv, fr, A, B, local, k, a


def positions(ctx, rng, idx):
    nv, fr, A, B, local, k, a = world(ctx, rng)
    how, fn = dup(rng)
    X = A
    name = type(X).__name__
    Y = ctx.do(how, fn, X)
    img = image(X)
    ctx.true('a copy is of the same kind', type(Y) is type(X) and type(Y.frame) is type(X.frame), Y)
    ctx.true('a copy is equal: ' + name, Y == X and X == Y and not Y != X, (X, Y))
    ctx.eq('a copy looks the same', repr(Y), repr(X))
    ctx.eq('a copy has the same contents', image(Y), img)

    def work(P):
        # the other position may be in the original frame: frames of copies are equal to it
        d = nv.delta_N(P, B)
        g = P.to_geo_point()
        return [P.to_nvector().normal, P.to_nvector().z, P.to_ecef_vector().pvector, g.latitude, g.longitude, g.z,
                d.pvector, d.azimuth, P.delta_to(B).pvector, nv.delta_E(B, P).pvector,
                g.distance_and_azimuth(B, method='greatcircle'), nv.FrameN(P).R_EN,
                P.to_ecef_vector().change_frame(local[2]).pvector, nv.GeoPath(P, B).track_distance(),
                nv.GeoPath(B, P).interpolate(0.25).normal, g.displace(0.1 * a, 0.5, method='greatcircle')[1]]
    want = ctx.do('operations on the original', work, X)
    got = ctx.do('operations on the copy', work, Y)
    ctx.eq('a copy works alike: ' + how, image(got), image(want), (X, Y))
    ctx.eq('the original is untouched', image(X), img)
    if how != 'copy':       # a shallow copy shares its arrays
        for v in vars(Y).values():
            if isinstance(v, np.ndarray) and v.flags.writeable and v.ndim:
                v[...] = 0.25
        ctx.eq('the original is untouched', image(X), img, 'overwriting ' + how)
    Y = fn(X)
    for key, value in dict(latitude=0.1, normal=np.array([[1.], [0], [0]]), pvector=np.ones((3, 1)), z=-7.).items():
        if hasattr(Y, key):
            setattr(Y, key, value)
    Y.frame = nv.FrameE(a=2 * a, f=0.05)
    ctx.eq('the original is untouched', image(X), img, 'assigning to ' + how)
    ctx.tag('{} of {}'.format(how, name))


def frames(ctx, rng, idx):
    nv, fr, A, B, local, k, a = world(ctx, rng)
    how, fn = dup(rng)
    if how != 'copy':
        for X in [fr, A] + local:
            independent(ctx, nv, rng, X, fn, how, a)
    for X in [fr] + local:
        name = type(X).__name__
        img = image(X)
        Y = ctx.do(how, fn, X)
        ctx.true('a copy is of the same kind', type(Y) is type(X), Y)
        ctx.true('a copy is equal: ' + name, Y == X and X == Y and not Y != X, (X, Y))
        ctx.eq('a copy looks the same', repr(Y), repr(X))
        ctx.eq('a copy has the same contents', image(Y), img)
        if X is fr:
            def work(F):
                p = nv.Nvector(gen.AXES6[:, [1]], 3.0, frame=F)
                return [F.a, F.f, F.R_Ee, F.direct(0.1, 0.2, 0.3, 0.4 * a), F.inverse(0.1, 0.2, 0.3, 0.4),
                        p.to_ecef_vector().pvector, F.GeoPoint(0.1, 0.2, 3).to_ecef_vector().pvector,
                        F.ECEFvector(np.ones((3, 1)) * a).to_nvector().normal, nv.delta_E(p, B).pvector]
        else:
            def work(F):
                p = B.to_ecef_vector()
                v = F.Pvector(np.ones((3, k)) * a / 10)
                return [F.R_EN, p.change_frame(F).pvector, v.to_ecef_vector().pvector, v.azimuth, v.elevation]
        want = ctx.do('operations with the original', work, X)
        got = ctx.do('operations with the copy', work, Y)
        ctx.eq('a copy works alike: ' + how, image(got), image(want), (X, Y))
        if how != 'copy':
            for v in list(vars(Y).values()) + (list(vars(Y.nvector).values()) if X is not fr else []):
                if isinstance(v, np.ndarray) and v.flags.writeable and v.ndim:
                    v[...] = 0.25
            ctx.eq('the original is untouched', image(X), img, 'overwriting ' + how)
            # neither are the tables of the library, and so frames made later
            F = ctx.do('FrameE', nv.FrameE, a=fr.a, f=fr.f, axes='e')
            G = ctx.do('FrameE', nv.FrameE, a=fr.a, f=fr.f, axes='E')
            ctx.true('later frames are untouched', np.array_equal(F.R_Ee, [[0, 0, 1], [0, 1, 0], [-1, 0, 0]])
                     and np.array_equal(G.R_Ee, np.eye(3)), (F, G))
        ctx.tag('{} of {}'.format(how, name))


def spoil(nv, rng, X, a, depth=0):
    """changes everything in an object, down to the frames of its parts"""
    for key, v in list(vars(X).items()):
        if key.startswith('_'):
            continue
        if isinstance(v, np.ndarray) and v.flags.writeable and v.ndim and rng.integers(2):
            v[...] = 0.25
        elif type(v).__module__.startswith('nvector'):
            spoil(nv, rng, v, a, depth + 1)
        elif isinstance(v, np.ndarray):
            setattr(X, key, v * 0.5 + 1)
        elif not isinstance(v, (bool, str)):
            setattr(X, key, v * 0.5 + 1)
    if rng.integers(2):
        for key, v in dict(frame=nv.FrameE(a=2 * a, f=0.05), point_b=nv.GeoPoint(0.1, 0.2)).items():
            if hasattr(X, key):
                setattr(X, key, v)


def independent(ctx, nv, rng, X, fn, how, a):
    """neither of original and copy follows the other when parts are changed"""
    one, two = ctx.do('deepcopy', copy.deepcopy, X), ctx.do(how, fn, X)
    img = image(X)
    spoil(nv, rng, two, a)
    ctx.eq('the original is untouched', image(X), img, 'changing parts of ' + how)
    two = ctx.do(how, fn, one)
    ctx.eq('a copy has the same contents', image(two), img)
    spoil(nv, rng, one, a)
    ctx.eq('the copy is untouched', image(two), img, 'changing parts of the original of ' + how)


def vectors(ctx, rng, idx):
    """delta vectors and paths"""
    nv, fr, A, B, local, k, a = world(ctx, rng)
    how, fn = dup(rng)
    F = local[rng.integers(3)]
    X = ctx.do('change_frame', B.to_ecef_vector().change_frame, F)
    Y = ctx.do(how, fn, X)
    ctx.true('a copy is equal: Pvector', Y == X and X == Y and not Y != X, (X, Y))
    ctx.eq('a copy has the same contents', image(Y), image(X))

    def work(v):
        return [v.pvector, v.length, v.azimuth, v.elevation_deg, v.to_ecef_vector().pvector, v.to_nvector().normal,
                v.to_geo_point().z]
    ctx.eq('a copy works alike: ' + how, image(ctx.do('copy', work, Y)), image(ctx.do('original', work, X)), (X, Y))
    if how != 'copy':
        independent(ctx, nv, rng, X, fn, how, a)
    path = ctx.do('GeoPath', nv.GeoPath, A, B)
    if how != 'copy':
        independent(ctx, nv, rng, path, fn, how, a)
    other = ctx.do(how, fn, path)

    def along(p):
        return [p.track_distance(), p.interpolate(0.3).normal, p.cross_track_distance(A), p.on_path(B),
                p.nvector_normals(), [q.z for q in p.geo_points()]]
    ctx.eq('a copy works alike: ' + how, image(ctx.do('copy', along, other)), image(ctx.do('original', along, path)),
           (path, other))
    ctx.true('end points of a copy are equal', other.point_a == A and other.point_b == B, (A, B))


WORKLOADS = [('positions', positions, 1500, 30000), ('frames', frames, 700, 15000), ('vectors', vectors, 700, 15000)]
REQUIRE = ['a copy is equal: ' + n for n in ('GeoPoint', 'Nvector', 'ECEFvector', 'Pvector', 'FrameE', 'FrameN',
                                             'FrameL', 'FrameB')] + [
    'a copy works alike: ' + n for n in ('copy', 'deepcopy', 'pickle', 'pickle inside')] + ['later frames are untouched', 'the copy is untouched']
