"""
Catalogue of the operations of the library, for the cross-cutting properties.

An operation has named inputs and outputs with physical types.  Inputs are stored in canonical form
(body axes x = north pole, radians, the unit of length of env.a); Env translates them to what a
client with these axes, this angle unit and these representations of points would pass, and
translates the results back.  The last axis of every array is the column.

types   n: direction (n-vector)    vec: vector decomposed in E     lv: vector in a local frame
        len: length   ang: angle   lat   lon   num: plain number   bool
        RE: rotation matrix with first index in E      R: plain rotation matrix
"""
import numpy as np

from rtm import gen, ref
from rtm.props.common import make_point, to_double

PI = np.pi


def stack(M):
    M = np.asarray(M)
    return M[:, :, None] if M.ndim == 2 else M


class Env(object):
    """how a client expresses things"""

    def __init__(self, ctx, a=6378137.0, f=1 / 298.257223563, R=None, axes=None, degrees=False, kinds=None,
                 scalar=False, frame=None):
        self.ctx, self.nv = ctx, ctx.nv
        self.a, self.f = a, f
        self.axes = axes
        self.R = ref.R_AXES[axes] if axes else (ref.R_DEFAULT if R is None else R)
        self.degrees = degrees
        self.kinds = kinds or {}
        self.scalar = scalar
        self.op = None
        self.frame = frame
        if frame is None and axes:
            self.frame = ctx.do('FrameE', ctx.nv.FrameE, a=a, f=f, axes=axes)

    def do(self, fn, *args, **kwds):
        return self.ctx.do(self.op.name, fn, *args, **kwds)

    # client side of inputs
    def send(self, kind, x):
        if x is None:
            return None
        if kind in ('n', 'vec'):
            return np.ascontiguousarray(np.einsum('ji,jk->ik', self.R, x))
        if kind == 'RE':
            return np.ascontiguousarray(np.einsum('ji,jkl->ikl', self.R, x))
        x = np.array(x)
        if kind in ('ang', 'lat', 'lon') and self.op.degrees and self.degrees:
            x = np.rad2deg(x)
        if self.scalar and kind in ('ang', 'lat', 'lon', 'len', 'num') and x.shape == (1,):
            return float(x[0])
        return x

    # canonical form of outputs
    def receive(self, kind, y):
        y = np.asarray(y)
        if kind in ('n', 'vec'):
            return np.einsum('ij,jk->ik', self.R, y.reshape(3, -1))
        if kind == 'lv':
            return y.reshape(3, -1)
        if kind == 'RE':
            return np.einsum('ij,jkl->ikl', self.R, stack(y))
        if kind == 'R':
            return stack(y)
        y = np.atleast_1d(y)
        if kind in ('ang', 'lat', 'lon') and self.op.degrees and self.degrees:
            y = np.deg2rad(y)
        return y

    def latlon(self, n):
        """latitude and longitude as sent, of a direction as sent"""
        out = [to_double(v) for v in ref.n2latlon(n, self.R)]
        if self.degrees:
            out = [np.rad2deg(v) for v in out]
        if self.scalar:
            out = [float(v[0]) for v in out]
        return out

    def point(self, name, n, z):
        """n: direction as sent (in E)"""
        kind = self.kinds.get(name, 'geo')
        if np.ndim(z) == 0:
            z = np.array([float(z)])
        return make_point(self.ctx, kind, self.frame, n, z, self.R, self.a, self.f, self.scalar)


class Op(object):
    def __init__(self, name, inputs, outputs, fn, points=(), oo=False, degrees=False, columns=True, scale=None,
                 pair=None, defined=None, vector=True, bcast=(), radius=1.0, deterministic=True):
        self.name = name
        self.inputs = dict(x.split(':') for x in inputs.split())
        self.outputs = dict(x.split(':') for x in outputs.split())
        self.fn = fn
        self.points = dict(x.split(':') for x in points)   # point name -> 'n,z' inputs
        self.oo = oo
        self.degrees = degrees
        self.columns = columns      # column i of the result depends on column i of the inputs only
        self.vector = vector        # accepts more than one column
        self.bcast = bcast          # inputs which may have one column while the others have n

    def run(self, env, inp):
        """canonical inputs -> (canonical outputs, raw outputs)"""
        env.op = self
        sent = {k: env.send(self.inputs[k], v) for k, v in inp.items()}
        raw = self.fn(env, sent)
        if not isinstance(raw, tuple):
            raw = (raw,)
        assert len(raw) == len(self.outputs), self.name
        return ({k: env.receive(t, y) for (k, t), y in zip(self.outputs.items(), raw)},
                dict(zip(self.outputs, raw)))


OPS = []


def op(name, inputs, outputs, **kw):
    def deco(fn):
        OPS.append(Op(name, inputs, outputs, fn, **kw))
        return fn
    return deco


def kwE(e):
    return dict(a=e.a, f=e.f, R_Ee=e.R)


# ---------------------------------------------------------------------------- functional
@op('lat_lon2n_E', 'lat:lat lon:lon', 'n:n')
def _(e, x):
    return e.do(e.nv.lat_lon2n_E, x['lat'], x['lon'], R_Ee=e.R)


@op('n_E2lat_lon', 'n:n', 'lat:lat lon:lon')
def _(e, x):
    return e.do(e.nv.n_E2lat_lon, x['n'], R_Ee=e.R)


@op('n_EB_E2p_EB_E', 'n:n z:len', 'p:vec', bcast=('n', 'z'))
def _(e, x):
    return e.do(e.nv.n_EB_E2p_EB_E, x['n'], x['z'], **kwE(e))


@op('p_EB_E2n_EB_E', 'n:n z:len', 'n:n z:len')
def _(e, x):
    p = to_double(ref.n2p(x['n'], x['z'], e.a, e.f, e.R))
    return e.do(e.nv.p_EB_E2n_EB_E, p, **kwE(e))


@op('n_EA_E_and_n_EB_E2p_AB_E', 'n:n m:n z:len w:len', 'p:vec', bcast=('n', 'm', 'z', 'w'))
def _(e, x):
    return e.do(e.nv.n_EA_E_and_n_EB_E2p_AB_E, x['n'], x['m'], x['z'], x['w'], **kwE(e))


@op('n_EA_E_and_p_AB_E2n_EB_E', 'n:n m:n z:len w:len', 'n:n z:len')
def _(e, x):
    p = to_double(ref.n2p(x['m'], x['w'], e.a, e.f, e.R) - ref.n2p(x['n'], x['z'], e.a, e.f, e.R))
    return e.do(e.nv.n_EA_E_and_p_AB_E2n_EB_E, x['n'], p, x['z'], **kwE(e))


@op('n_EA_E_and_n_EB_E2azimuth', 'n:n m:n', 'az:ang', bcast=('n', 'm'))
def _(e, x):
    return e.do(e.nv.n_EA_E_and_n_EB_E2azimuth, x['n'], x['m'], **kwE(e))


@op('n_EA_E_distance_and_azimuth2n_EB_E', 'n:n t:num az:ang', 'n:n', bcast=('n', 't', 'az'))
def _(e, x):
    return e.do(e.nv.n_EA_E_distance_and_azimuth2n_EB_E, x['n'], x['t'], x['az'], R_Ee=e.R)


@op('great_circle_distance', 'n:n m:n r:len', 'd:len', bcast=('n', 'm', 'r'))
def _(e, x):
    return e.do(e.nv.great_circle_distance, x['n'], x['m'], radius=x['r'])


@op('euclidean_distance', 'n:n m:n r:len', 'd:len', bcast=('n', 'm', 'r'))
def _(e, x):
    return e.do(e.nv.euclidean_distance, x['n'], x['m'], radius=x['r'])


@op('cross_track_distance', 'n:n m:n p:n r:len', 'd:len', bcast=('nm', 'p', 'r'))
def _(e, x):
    return e.do(e.nv.cross_track_distance, (x['n'], x['m']), x['p'], radius=x['r'])


@op('cross_track_distance euclidean', 'n:n m:n p:n r:len', 'd:len', bcast=('nm', 'p', 'r'))
def _(e, x):
    return e.do(e.nv.cross_track_distance, (x['n'], x['m']), x['p'], method='euclidean', radius=x['r'])


@op('on_great_circle', 'n:n m:n t:num r:len', 'on:bool')
def _(e, x):
    return e.do(e.nv.on_great_circle, (x['n'], x['m']), on_off(x), radius=x['r'], atol=1e-6 * e.a)


@op('on_great_circle_path', 'n:n m:n t:num r:len', 'on:bool')
def _(e, x):
    return e.do(e.nv.on_great_circle_path, (x['n'], x['m']), on_off(x), radius=x['r'], atol=1e-6 * e.a)


def on_off(x):
    """position on the circle at fraction t of the path; for t in (.4,.6) at some distance from it"""
    c = ref.unit(ref.cross(x['n'], x['m']))
    th = ref.angle(x['n'], x['m']) * np.asarray(x['t'])
    foot = x['n'] * np.cos(th) + ref.cross(c, x['n']) * np.sin(th)
    far = (np.asarray(x['t']) > 0.4) & (np.asarray(x['t']) < 0.6)
    return to_double(ref.unit(foot + c * np.where(far, 0.01, 0)))


@op('closest_point_on_great_circle', 'n:n m:n p:n', 'c:n', bcast=('nm', 'p'))
def _(e, x):
    return e.do(e.nv.closest_point_on_great_circle, (x['n'], x['m']), x['p'])


@op('great_circle_normal', 'n:n m:n', 'c:n', bcast=('n', 'm'))
def _(e, x):
    return e.do(e.nv.great_circle_normal, x['n'], x['m'])


@op('intersect', 'n:n m:n p:n q:n', 'c:n', bcast=('nm', 'pq'))
def _(e, x):
    return e.do(e.nv.intersect, (x['n'], x['m']), (x['p'], x['q']))


@op('interpolate', 'n:n m:n t:num', 'c:n', bcast=('nm', 't'))
def _(e, x):
    return e.do(e.nv.interpolate, (x['n'], x['m']), x['t'])


@op('mean_horizontal_position', 'n:n', 'c:n', columns=False)
def _(e, x):
    return e.do(e.nv.mean_horizontal_position, x['n'])


@op('interp_nvectors', 'n:n', 'c:n', columns=False)
def _(e, x):
    k = x['n'].shape[1]
    if k == 1:
        return x['n']
    t = np.linspace(0, k - 1, 2 * k)
    return e.do(e.nv.interp_nvectors, t, np.arange(k), x['n'])


@op('interp_nvectors smooth', 'n:n', 'c:n', columns=False)
def _(e, x):
    k = x['n'].shape[1]
    if k < 3:
        return x['n']
    t = np.linspace(0, k - 1, 2 * k)
    return e.do(e.nv.interp_nvectors, t, np.arange(k), x['n'], kind='quadratic', window_length=3, polyorder=1)


@op('n_E2R_EN', 'n:n', 'R:RE')
def _(e, x):
    return e.do(e.nv.n_E2R_EN, x['n'], R_Ee=e.R)


@op('n_E_and_wa2R_EL', 'n:n az:ang', 'R:RE', bcast=('n', 'az'))
def _(e, x):
    return e.do(e.nv.n_E_and_wa2R_EL, x['n'], x['az'], R_Ee=e.R)


def orientation(e, x):
    """some rotation matrix with down as third column (north-east-down off the poles)"""
    R = ref.R_EN(x['n'], e.R)
    n = ref.unit(x['n'])
    first = ref.unit(ref.cross(ref.matTvec(e.R, np.array([[0], [1.], [0]])), n))
    at_pole = ~(ref.norm(ref.cross(ref.pole(e.R), n)) > 1e-17)
    return np.where(at_pole, np.stack([first, ref.cross(-n, first), -n], axis=1), R)


@op('R_EN2n_E', 'n:n', 'n:n')
def _(e, x):
    return e.do(e.nv.R_EN2n_E, to_double(orientation(e, x)))


@op('R_EL2n_E', 'n:n az:ang', 'n:n')
def _(e, x):
    R = to_double(ref.matmul(orientation(e, x), ref.elementary('z', x['az'])))
    return e.do(e.nv.R_EL2n_E, R)


@op('xyz2R', 'x:ang y:ang z:ang', 'R:R', bcast=('x', 'y', 'z'))
def _(e, x):
    return e.do(e.nv.xyz2R, x['x'], x['y'], x['z'])


@op('zyx2R', 'x:ang y:ang z:ang', 'R:R', bcast=('x', 'y', 'z'))
def _(e, x):
    return e.do(e.nv.zyx2R, x['z'], x['y'], x['x'])


@op('R2xyz', 'x:ang y:ang z:ang', 'x:ang y:ang z:ang')
def _(e, x):
    return e.do(e.nv.R2xyz, to_double(ref.rot_xyz(x['x'], np.asarray(x['y']) / 2.2, x['z'])))


@op('R2zyx', 'x:ang y:ang z:ang', 'x:ang y:ang z:ang')
def _(e, x):
    return e.do(e.nv.R2zyx, to_double(ref.rot_zyx(x['z'], np.asarray(x['y']) / 2.2, x['x'])))


@op('unit', 'n:n t:num', 'n:n')
def _(e, x):
    return e.do(e.nv.unit, x['n'] * (2 + np.asarray(x['t'])))


@op('mdot', 'x:ang y:ang z:ang', 'R:R')
def _(e, x):
    A = to_double(ref.rot_xyz(x['x'], x['y'], x['z']))
    B = to_double(ref.rot_zyx(x['x'], x['y'], x['z']))
    return e.do(e.nv.mdot, A, B)


# ---------------------------------------------------------------------------- objects
P1 = dict(points=('A:n,z',), oo=True)
P2 = dict(points=('A:n,z', 'B:m,w'), oo=True)
P3 = dict(points=('A:n,z', 'B:m,w', 'C:p,v'), oo=True)
I1 = 'n:n z:len '
I2 = I1 + 'm:n w:len '
I3 = I2 + 'p:n v:len '


def A_(e, x):
    return e.point('A', x['n'], x['z'])


def B_(e, x):
    return e.point('B', x['m'], x['w'])


def C_(e, x):
    return e.point('C', x['p'], x['v'])


def geo(e, P):
    """A as a GeoPoint (needed for displace and distance_and_azimuth)"""
    return e.do(P.to_geo_point)


def llz(e, P):
    if e.degrees and e.op.degrees:
        return P.latitude_deg, P.longitude_deg, P.z
    return P.latitude, P.longitude, P.z


@op('to_nvector', I1, 'n:n z:len', **P1)
def _(e, x):
    v = e.do(A_(e, x).to_nvector)
    return v.normal, v.z


@op('to_ecef_vector', I1, 'p:vec r:len', **P1)
def _(e, x):
    v = e.do(A_(e, x).to_ecef_vector)
    return v.pvector, v.length


@op('to_geo_point', I1, 'lat:lat lon:lon z:len', degrees=True, **P1)
def _(e, x):
    v = e.do(A_(e, x).to_geo_point)
    return llz(e, v)


@op('delta_E', I2, 'p:vec r:len', bcast=('nz', 'mw'), **P2)
def _(e, x):
    d = e.do(e.nv.delta_E, A_(e, x), B_(e, x))
    return d.pvector, d.length


def local(e, d):
    if e.degrees and e.op.degrees:
        return d.pvector, d.length, d.azimuth_deg, d.elevation_deg
    return d.pvector, d.length, d.azimuth, d.elevation


LOCAL = 'p:lv r:len az:ang el:ang'


@op('delta_N', I2, LOCAL, bcast=('nz', 'mw'), degrees=True, **P2)
def _(e, x):
    return local(e, e.do(e.nv.delta_N, A_(e, x), B_(e, x)))


@op('delta_to', I2, LOCAL, bcast=('nz', 'mw'), degrees=True, **P2)
def _(e, x):
    return local(e, e.do(A_(e, x).delta_to, B_(e, x)))


@op('delta_L', I2 + 'az:ang', LOCAL, **P2)
def _(e, x):
    return local(e, e.do(e.nv.delta_L, A_(e, x), B_(e, x), wander_azimuth=x['az']))


@op('change_frame N', I2, LOCAL, degrees=True, **P2)
def _(e, x):
    d = e.do(B_(e, x).to_ecef_vector)
    return local(e, e.do(d.change_frame, e.nv.FrameN(A_(e, x))))


@op('change_frame B', I2 + 'x:ang y:ang q:ang', LOCAL, degrees=True, **P2)
def _(e, x):
    d = e.do(B_(e, x).to_ecef_vector)
    F = e.nv.FrameB(A_(e, x), yaw=x['x'], pitch=x['y'], roll=x['q'], degrees=e.degrees)
    return local(e, e.do(d.change_frame, F))


@op('Pvector.to_ecef_vector', I1 + 'q:lv', 'p:vec r:len', **P1)
def _(e, x):
    N = e.do(e.nv.FrameN, A_(e, x))
    v = e.do(N.Pvector, x['q'])
    w = e.do(v.to_ecef_vector)
    return w.pvector, w.length


@op('Pvector.to_nvector', I2 + 'az:ang', 'n:n z:len lat:lat lon:lon d:len', **P2)
def _(e, x):
    L = e.nv.FrameL(A_(e, x), x['az'])
    b = B_(e, x).to_ecef_vector()
    v = e.do(b.change_frame, L)
    n, g = e.do(v.to_nvector), e.do(v.to_geo_point)
    return n.normal, n.z, g.latitude, g.longitude, g.z


@op('A + delta', I2, 'n:n z:len', **P2)
def _(e, x):
    A = A_(e, x).to_ecef_vector()
    d = e.do(e.nv.delta_E, A, B_(e, x))
    v = e.do(lambda: (A + d).to_nvector())
    return v.normal, v.z


@op('ECEF arithmetic', I2, 's:vec d:vec m:vec', bcast=('nz', 'mw'), **P2)
def _(e, x):
    A, B = A_(e, x).to_ecef_vector(), B_(e, x).to_ecef_vector()
    return e.do(lambda: ((A + B).pvector, (A - B).pvector, (-A).pvector))


@op('Nvector arithmetic', I2 + 't:num', 's:n sz:len d:n dz:len m:n mz:len x:n xz:len y:n yz:len', **P2)
def _(e, x):
    A, B = A_(e, x).to_nvector(), B_(e, x).to_nvector()
    t = x['t'] + 2

    def calc():
        out = ()
        for v in (A + B, A - B, -A, A * t, A / t):
            out += (v.normal, v.z)
        return out
    return e.do(calc)


def displaced(e, x, **kw):
    P, az = e.do(geo(e, A_(e, x)).displace, x['d'], x['az'], degrees=e.degrees, **kw)
    return llz(e, P) + (az,)


DISP = 'lat:lat lon:lon z:len az:ang'


@op('displace ellipsoid', I1 + 'd:len az:ang', DISP, degrees=True, bcast=('d', 'az'), **P1)
def _(e, x):
    return displaced(e, x)


@op('displace greatcircle', I1 + 'd:len az:ang', DISP, degrees=True, bcast=('d', 'az'), **P1)
def _(e, x):
    return displaced(e, x, method='greatcircle')


@op('distance_and_azimuth ellipsoid', I2, 'd:len aza:ang azb:ang', degrees=True, bcast=('nz', 'mw'), **P2)
def _(e, x):
    return e.do(geo(e, A_(e, x)).distance_and_azimuth, B_(e, x), degrees=e.degrees)


@op('distance_and_azimuth greatcircle', I2, 'd:len aza:ang azb:ang', degrees=True, bcast=('nz', 'mw'), **P2)
def _(e, x):
    return e.do(geo(e, A_(e, x)).distance_and_azimuth, B_(e, x), degrees=e.degrees, method='greatcircle')


@op('FrameE.direct', I1 + 'd:len az:ang', 'lat:lat lon:lon az:ang', degrees=True, oo=True,
    bcast=('n', 'd', 'az', 'z'))
def _(e, x):
    lat, lon = e.latlon(x['n'])
    return e.do(e.frame.direct, lat, lon, x['az'], x['d'], z=x['z'], degrees=e.degrees)


@op('FrameE.inverse', I1 + 'm:n', 'd:len aza:ang azb:ang', degrees=True, oo=True, bcast=('n', 'm', 'z'))
def _(e, x):
    pts = e.latlon(x['n']) + e.latlon(x['m'])
    return e.do(e.frame.inverse, *pts, z=x['z'], degrees=e.degrees)


def path(e, x):
    return e.nv.GeoPath(A_(e, x), B_(e, x))


@op('GeoPath.cross_track_distance', I3, 'd:len', bcast=('nzmw', 'pv'), **P3)
def _(e, x):
    return e.do(path(e, x).cross_track_distance, C_(e, x))


@op('GeoPath.cross_track_distance euclidean', I3 + 'r:len', 'd:len', bcast=('nzmw', 'pv', 'r'), **P3)
def _(e, x):
    return e.do(path(e, x).cross_track_distance, C_(e, x), method='euclidean', radius=x['r'])


@op('GeoPath.track_distance', I2, 'd:len', bcast=('nz', 'mw'), **P2)
def _(e, x):
    return e.do(path(e, x).track_distance)


@op('GeoPath.track_distance euclidean', I2 + 'r:len', 'd:len', bcast=('nz', 'mw', 'r'), **P2)
def _(e, x):
    return e.do(path(e, x).track_distance, method='euclidean', radius=x['r'])


@op('GeoPath.track_distance ellipsoid', I2, 'd:len', bcast=('nz', 'mw'), **P2)
def _(e, x):
    return e.do(path(e, x).track_distance, method='ellipsoid')


@op('GeoPath.intersect', I2 + 'p:n v:len q:n u:len', 'n:n z:len', bcast=('nzmw', 'pvqu'),
    points=('A:n,z', 'B:m,w', 'C:p,v', 'D:q,u'), oo=True)
def _(e, x):
    other = e.nv.GeoPath(C_(e, x), e.point('D', x['q'], x['u']))
    v = e.do(path(e, x).intersect, other)
    return v.normal, v.z


@op('GeoPath.closest_point_on_great_circle', I3, 'lat:lat lon:lon z:len', bcast=('nzmw', 'pv'), **P3)
def _(e, x):
    return llz(e, e.do(path(e, x).closest_point_on_great_circle, C_(e, x)))


@op('GeoPath.closest_point_on_path', I3, 'lat:lat lon:lon z:len', vector=False, **P3)
def _(e, x):
    return llz(e, e.do(path(e, x).closest_point_on_path, C_(e, x)))


@op('GeoPath.interpolate', I2 + 't:num', 'n:n z:len', bcast=('nzmw', 't'), **P2)
def _(e, x):
    v = e.do(path(e, x).interpolate, x['t'])
    return v.normal, v.z


@op('GeoPath.on_great_circle', I2 + 't:num', 'on:bool', **P2)
def _(e, x):
    P = e.point('C', on_off(x), (np.asarray(x['z']) + np.asarray(x['w'])) / 2)
    return e.do(path(e, x).on_great_circle, P, atol=1e-6 * e.a)


@op('GeoPath.on_path', I2 + 't:num', 'on:bool', **P2)
def _(e, x):
    P = e.point('C', on_off(x), (np.asarray(x['z']) + np.asarray(x['w'])) / 2)
    return e.do(path(e, x).on_path, P, atol=1e-6 * e.a)


@op('Nvector.mean', I1, 'n:n z:len', columns=False, **P1)
def _(e, x):
    v = e.do(A_(e, x).to_nvector().mean)
    return v.normal, v.z


@op('Nvector.interpolate', I1, 'n:n z:len', columns=False, **P1)
def _(e, x):
    v = A_(e, x).to_nvector()
    k = v.normal.shape[1]
    if k == 1:
        return v.normal, v.z
    w = e.do(v.interpolate, np.linspace(0, k - 1, 2 * k), np.arange(k))
    return w.normal, w.z


@op('FrameN.R_EN', I1, 'R:RE', **P1)
def _(e, x):
    return e.do(lambda: e.nv.FrameN(A_(e, x)).R_EN)


@op('FrameL.R_EN', I1 + 'az:ang', 'R:RE', **P1)
def _(e, x):
    return e.do(lambda: e.nv.FrameL(A_(e, x), x['az']).R_EN)


@op('FrameB.R_EN', I1 + 'x:ang y:ang q:ang', 'R:RE', degrees=True, **P1)
def _(e, x):
    return e.do(lambda: e.nv.FrameB(A_(e, x), x['x'], x['y'], x['q'], degrees=e.degrees).R_EN)


BY_NAME = {o.name: o for o in OPS}
FUNCTIONAL = [o for o in OPS if not o.oo]
OBJECTS = [o for o in OPS if o.oo]


# ---------------------------------------------------------------------------- inputs
def directions(rng, k, away=0.05):
    """body-axes directions off the poles and not close to the antimeridian"""
    la = rng.uniform(-PI / 2 + away, PI / 2 - away, k)
    lo = rng.uniform(-PI + away, PI - away, k)
    return latlon(la, lo)


def latlon(la, lo):
    return np.ascontiguousarray(to_double(ref.latlon2n(la, lo, np.eye(3))))


def near_but_apart(rng, n, lo=0.05, hi=2.6):
    """second end of a path: lo..hi away, itself off the poles, path off the pole"""
    k = n.shape[1]
    out = np.empty_like(n)
    todo = np.ones(k, bool)
    for _ in range(1000):
        m = gen.near(rng, n, lo * (hi / lo) ** rng.uniform(0, 1, k))
        cosl = np.hypot(m[1], m[2])
        circle = np.abs(gen.normalize(np.cross(n, m, axis=0))[0])
        ok = todo & (cosl > 0.05) & (m[2] < 0.9) & (circle < 0.999) & (circle > 0.001)
        out[:, ok] = m[:, ok]
        todo &= ~ok
        if not todo.any():
            return np.ascontiguousarray(out)
    raise RuntimeError('cannot place')


def inputs(rng, o, k, a):
    """well conditioned canonical inputs of an operation: k columns, sometimes with coincidences among them"""
    x = plain_inputs(rng, o, k, a)
    if rng.integers(3) == 0:
        coincide(rng, o, k, x)
    return x


MIRRORS = (np.array([[1.], [1], [-1]]), np.array([[1.], [-1], [1]]), np.array([[-1.], [1], [1]]),
           np.array([[1.], [-1], [-1]]))


def mirrored(rng, x, k):
    """ends of paths with exactly the same latitude, or longitude, as the starts, where the path allows it"""
    m = x['n'] * MIRRORS[rng.integers(len(MIRRORS))]
    cos = (x['n'] * m).sum(axis=0)
    circle = np.abs(np.cross(x['n'], m, axis=0)[0]) / np.sqrt(np.maximum(1 - cos * cos, 1e-9))
    over_pole = (m[0] == x['n'][0]) & (circle < 0.01)
    ok = (cos < np.cos(0.06)) & (cos > np.cos(2.6)) & (circle < 0.999) & (m[2] < 0.9) & ~over_pole
    return np.ascontiguousarray(np.where(ok, m, x['m']))


def coincide(rng, o, k, x):
    """equal depths, right angles, halves, repeated columns, mirrored ends"""
    depths = [n for n in ('z', 'w', 'v', 'u') if o.inputs.get(n) == 'len']
    which = rng.integers(6)
    if which == 0 and depths:           # one depth, the same for all or column by column
        z = x[depths[0]].copy()
        if rng.integers(2):
            z[:] = z[0] if rng.integers(2) else 0.0
        for n in depths:
            x[n] = z.copy()
    elif which == 1 and 'm' in x and not set('pq') & set(n for n in x if o.inputs[n] == 'n'):
        x['m'] = mirrored(rng, x, k)
    elif which == 2 and k > 1:          # equal columns
        j = np.zeros(k, int) if rng.integers(2) else rng.integers(k, size=k)
        x.update(pick(x, j))
    elif which == 3:
        for n, t in o.inputs.items():
            if t == 'ang':
                x[n] = rng.choice([0, PI / 2, -PI / 2, PI / 4, 1.0], k) * np.ones(k)
            elif t == 'num' and o.outputs.get('on') != 'bool':
                x[n] = rng.choice([0, 0.25, 0.5, 1], k) * 1.0
    elif which == 4:
        for n, t in o.inputs.items():   # equal numbers in all columns
            if t in ('ang', 'len', 'num', 'lat', 'lon'):
                x[n] = np.full(k, x[n][0])
    else:
        lens = [n for n, t in o.inputs.items() if t == 'len' and n not in depths]
        for n in lens:
            x[n] = np.full(k, x[lens[0]][0])
        angs = [n for n, t in o.inputs.items() if t in ('ang', 'lat', 'lon')]
        for n in angs:
            x[n] = x[angs[0]].copy()


def plain_inputs(rng, o, k, a):
    x = {}
    for name, kind in o.inputs.items():
        if kind == 'n':
            if name == 'n':
                x[name] = directions(rng, k)
            elif name == 'm':
                x[name] = near_but_apart(rng, x['n'])
            elif name == 'p':
                x[name] = away_from_circle(rng, x, k)
            else:       # q: path p-q crosses path n-m at a good angle
                x[name] = crossing(rng, x, k)
        elif kind == 'len':
            if name in ('z', 'w', 'v', 'u'):
                x[name] = rng.uniform(-1e-2, 1e-3, k) * a
            elif name == 'r':
                x[name] = rng.uniform(0.5, 2, k) * a
            else:
                x[name] = rng.uniform(0.05, 2.5, k) * a
        elif kind == 'lat':
            x[name] = rng.uniform(-1.5, 1.5, k)
        elif kind == 'lon':
            x[name] = rng.uniform(-3, 3, k)
        elif kind == 'ang':
            x[name] = rng.uniform(-3, 3, k)
        elif kind == 'num':
            x[name] = rng.uniform(0.02, 0.98, k)
            if o.outputs.get('on') == 'bool':
                x[name] = rng.choice([-0.3, 0.2, 0.5, 0.8, 1.4], k) + rng.uniform(-.05, .05, k)
        elif kind == 'lv':
            x[name] = rng.normal(size=(3, k)) * a * 0.1
    return x


def away_from_circle(rng, x, k):
    out = np.empty((3, k))
    todo = np.ones(k, bool)
    c = gen.normalize(np.cross(x['n'], x['m'], axis=0))
    for _ in range(1000):
        m = directions(rng, k)
        s = np.abs((c * m).sum(axis=0))
        # clearly on one side of the perpendiculars through the end points, foot off the pole
        foot = gen.normalize(m - (c * m).sum(axis=0) * c)
        near = [np.abs((np.cross(c, x[e], axis=0) * m).sum(axis=0)) > 0.02 for e in ('n', 'm')]
        d = [np.arccos(np.clip((x[e] * m).sum(axis=0), -1, 1)) for e in ('n', 'm')]
        ok = (todo & (s > 0.02) & (s < 0.98) & (np.hypot(foot[1], foot[2]) > 0.02) & near[0] & near[1]
              & (np.abs(d[0] - d[1]) > 0.02) & (d[0] > 0.05) & (d[1] > 0.05) & (d[0] < 3.05) & (d[1] < 3.05))
        out[:, ok] = m[:, ok]
        todo &= ~ok
        if not todo.any():
            return np.ascontiguousarray(out)
    raise RuntimeError('cannot place')


def crossing(rng, x, k):
    out = np.empty((3, k))
    todo = np.ones(k, bool)
    c = gen.normalize(np.cross(x['n'], x['m'], axis=0))
    for _ in range(1000):
        q = gen.near(rng, x['p'], rng.uniform(0.1, 2.5, k))
        d = gen.normalize(np.cross(x['p'], q, axis=0))
        at = np.cross(c, d, axis=0)
        s = np.sqrt((at * at).sum(axis=0))
        side = np.abs((at * x['n']).sum(axis=0)) / np.maximum(s, 1e-9)
        ok = todo & (s > 0.1) & (side > 0.02) & (np.hypot(q[1], q[2]) > 0.05)
        out[:, ok] = q[:, ok]
        todo &= ~ok
        if not todo.any():
            return np.ascontiguousarray(out)
    raise RuntimeError('cannot place')


def pick(x, cols):
    return {k: np.ascontiguousarray(v[..., cols]) for k, v in x.items()}


def compare(ctx, name, o, got, want, tol, a, info, skip=()):
    """canonical outputs agree"""
    for k, t in o.outputs.items():
        if k in skip:
            continue
        g, w = got[k], want[k]
        label = '{}: {}'.format(name, o.name)
        if t == 'bool':
            ctx.shape(label, g, np.shape(w))
            ctx.true(label, g == w, (k, g, w, info))
        elif t in ('ang', 'lat', 'lon'):
            ctx.close_ang(label, g, w, tol, (k, info))
        elif t in ('len', 'vec', 'lv'):
            ctx.close(label, g, w, tol * a, (k, info))
        else:
            ctx.close(label, g, w, tol, (k, info))
