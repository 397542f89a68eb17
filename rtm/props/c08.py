"""C08: destination from position, angular distance and azimuth"""
import numpy as np

from rtm import gen, ref
from rtm.props.c04 import lon_cond, on_pole, positions
from rtm.props.common import EPS, PI, R_of, axes_class, kw_R

TECHNIQUE = ('extended-precision spherical direct problem, plus inverse monitors (distance travelled, initial '
             'direction, travelling back)')


def distance(rng, k):
    return gen._pick(rng, k, [lambda m: rng.uniform(0, PI, m), lambda m: 10 ** rng.uniform(-12, 0, m),
                              lambda m: rng.uniform(-PI, 0, m), lambda m: rng.uniform(-20, 20, m),
                              lambda m: rng.choice([0, PI / 2, PI, -PI / 2, 2 * PI], m),
                              lambda m: PI - 10 ** rng.uniform(-12, 0, m),
                              lambda m: gen.sign(rng, m) * 10 ** rng.uniform(1, 6, m)])


def north_east(n, R):
    """as documented also at the poles: there east is the second axis of e"""
    with np.errstate(all='ignore'):
        north, east = ref.north_east(n, R)
    pole = np.asarray(on_pole(n, R))
    y = np.broadcast_to(ref.matTvec(R, np.array([[0.], [1], [0]])), n.shape)
    east = np.where(pole, y, east)
    north = np.where(pole, ref.cross(n, y), north)
    return north, east, pole


def destination(ctx, rng, idx):
    nv = ctx.nv
    R, kind = gen.R_Ee(rng)
    k = gen.ncols(rng)
    n = positions(rng, k, R_of(R))
    # at a pole a longitude is needed: only exact poles of exactly representable axes
    d, az = distance(rng, k), gen.angle(rng, k, 'many')
    mode = rng.integers(5)
    nn, dd, aa = n, d, az
    if mode == 0:
        dd = float(d[0])
        d = np.full(k, dd)
    elif mode == 1:
        aa = float(az[0])
        az = np.full(k, aa)
    elif mode == 2:
        dd, aa = float(d[0]), float(az[0])
        d, az = np.full(k, dd), np.full(k, aa)
    elif mode == 3 and k > 1:
        nn = np.ascontiguousarray(n[:, :1])
        n = np.repeat(nn, k, axis=1)
    got = ctx.do('n_EA_E_distance_and_azimuth2n_EB_E', nv.n_EA_E_distance_and_azimuth2n_EB_E, nn, dd, aa, **kw_R(R))
    north, east, pole = north_east(n, R_of(R))
    dirn = north * np.cos(ref.ld(az)) + east * np.sin(ref.ld(az))
    want = ref.ld(n) * np.cos(ref.ld(d)) + dirn * np.sin(ref.ld(d))
    cond = np.where(pole, 1, lon_cond(n, R_of(R)))
    tiny = (ref.cos_lat(n, R_of(R)) < 1e-150) & ~pole
    tol = np.where(tiny, 3, 24 * EPS * cond)
    info = (n, d, az, R)
    ctx.close('destination', got, np.where(tiny, got, want), tol, info)
    ctx.close('unit n-vector', ref.norm(got), ref.norm(n), 16 * EPS, info)
    folded = np.abs(ref.wrap(d))
    ctx.close('distance travelled', ref.angle(n, got), folded, 24 * EPS, info)
    ok = (np.sin(folded) > 1e-3) & (tol < 1e-9)
    move = ref.unit(ref.ld(got) - ref.dot(got, ref.unit(n)) * ref.unit(n)) * np.where(np.sin(ref.ld(d)) < 0, -1, 1)
    az_got = np.arctan2(ref.dot(move, east), ref.dot(move, north))
    ctx.close_ang('initial direction', np.where(ok, az_got, 0), np.where(ok, ref.wrap(az), 0), tol * 2e3, info)
    # back: leave the destination in the opposite of the arrival direction
    nb, eb, poleb = north_east(got, R_of(R))
    t = ref.ld(n) * -np.sin(ref.ld(d)) + dirn * np.cos(ref.ld(d))
    az_b = np.arctan2(ref.dot(t, eb), ref.dot(t, nb)) + ref.PI
    cond_b = np.where(poleb, 1, lon_cond(got, R_of(R)))
    far = 1 / np.maximum(ref.cos_lat(got, R_of(R)), 1e-30)
    tol_b = (tol + 32 * EPS * cond_b) * 4 * np.minimum(far, 1e30)
    good = (tol_b < 1e-6) & ~poleb
    back = ctx.do('n_EA_E_distance_and_azimuth2n_EB_E', nv.n_EA_E_distance_and_azimuth2n_EB_E, got, d,
                  np.where(good, az_b, 0).astype(float), **kw_R(R))
    ctx.close('travelling back', np.where(good, back, 0), np.where(good, ref.ld(n), 0), tol_b, info)
    ctx.tag('axes ' + kind)
    ctx.tag('exactly at a pole', pole.sum())
    ctx.tag('back and forth judged', good.sum())
    ctx.tag('mode {}'.format(mode))


def inverse(ctx, rng, idx):
    """on a sphere the azimuth and distance from A to B lead back to B"""
    nv = ctx.nv
    R, kind = gen.R_Ee(rng)
    k = gen.ncols(rng)
    a, b = gen.generic_pair(rng, k, 1e-6, PI - 1e-6)
    cl = np.maximum(ref.cos_lat(a, R_of(R)), 1e-30)
    r = float(10 ** rng.uniform(-3, 9))
    az = ctx.do('n_EA_E_and_n_EB_E2azimuth', nv.n_EA_E_and_n_EB_E2azimuth, a, b, a=r, f=0, **kw_R(R))
    d = ctx.do('great_circle_distance', nv.great_circle_distance, a, b, radius=1)
    got = ctx.do('n_EA_E_distance_and_azimuth2n_EB_E', nv.n_EA_E_distance_and_azimuth2n_EB_E, a, d, az, **kw_R(R))
    s = np.sin(ref.angle(a, b))
    tol = 64 * EPS * (1 + 1 / np.maximum(s, 1e-9)) + (0 if axes_class(R_of(R)) else 64 * EPS / cl)
    ok = tol < 1e-6
    ctx.close('azimuth and distance lead to B', np.where(ok, got, 0), np.where(ok, b, 0), tol, (a, b, R))


WORKLOADS = [('destination', destination, 8000, 300000), ('inverse', inverse, 3000, 100000)]
REQUIRE = ['destination', 'unit n-vector', 'distance travelled', 'initial direction', 'travelling back',
           'azimuth and distance lead to B']
