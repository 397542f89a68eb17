"""Shared by the property modules."""
import numpy as np

from rtm import gen, ref

EPS = ref.EPS
L = np.longdouble
PI = np.pi


def axes_class(R):
    """1 if rounding in R times vector is exact (signed permutation), else 0"""
    R = np.asarray(R)
    return bool(np.isin(np.abs(R), (0.0, 1.0)).all())


def kw_R(R):
    """keyword arguments for R_Ee; the default is sometimes spelled out"""
    return {} if R is None else {'R_Ee': R}


def R_of(R):
    return ref.R_DEFAULT if R is None else R


def frame(ctx, rng, axes=None, **ell):
    """(FrameE, a, f, R_Ee, axes) with random ellipsoid and axes"""
    a, f = gen.ellipsoid(rng, **ell)
    ax = str(rng.choice(['e', 'E'])) if axes is None else axes
    fr = ctx.do('FrameE', ctx.nv.FrameE, a=a, f=f, axes=ax)
    return fr, a, f, ref.R_AXES[ax], ax


def col(v, i):
    return np.ascontiguousarray(v[..., i:i + 1])


def unit_tol(k=8):
    return k * EPS


def to_double(v):
    return np.ascontiguousarray(np.asarray(v).astype(float))


def scalar_or_vector(rng, *arrays):
    """arrays as given, or (if they have length one) as python/numpy scalars"""
    if arrays[0].shape[-1] == 1:
        k = rng.integers(3)
        if k == 0:
            return [float(x[0]) for x in arrays]
        if k == 1:
            return [x[0] for x in arrays]
    return list(arrays)


def number(x):
    return int(x) if np.asarray(x).dtype.kind == 'i' else float(x)


def make_point(ctx, kind, frame, n, z, R, a, f, scalar=False):
    """the position (n, z) as a GeoPoint, Nvector or ECEFvector; n: 3xk, z: k"""
    nv = ctx.nv
    if kind == 'geo':
        lat, lon = (to_double(x) for x in ref.n2latlon(n, R))
        if scalar:
            return ctx.do('GeoPoint', nv.GeoPoint, float(lat[0]), float(lon[0]), number(z[0]), frame=frame)
        return ctx.do('GeoPoint', nv.GeoPoint, lat, lon, z, frame=frame)
    if kind == 'nvec':
        return ctx.do('Nvector', nv.Nvector, n, number(z[0]) if scalar else z, frame=frame)
    p = to_double(ref.n2p(n, z, a, f, R))
    if scalar:
        return ctx.do('ECEFvector', nv.ECEFvector, p, frame=frame)
    return ctx.do('ECEFvector', nv.ECEFvector, p, frame=frame, scalar=False)


KINDS = ('geo', 'nvec', 'ecef')
