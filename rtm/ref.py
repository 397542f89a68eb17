"""
Reference model, evaluated in 80-bit extended precision (np.longdouble, eps = 1.1e-19).

It is written from the definitions (Gade 2010, Karney 2013 and the textbook formulas for an
ellipsoid of revolution), not from the code under test, and uses different formulas where there is
a choice.  Every array has the column index as its last axis.
"""
import numpy as np

L = np.longdouble
EPS = float(np.finfo(float).eps)
PI = L('3.14159265358979323846264338327950288')
# a full turn: a number of 40 bits, and the rest
TURN, REST = L(863554413089) / L(2 ** 37), L('2.977418992194649249435455894338798750212e-12')

R_DEFAULT = np.array([[0, 0, 1.0], [0, 1.0, 0], [-1.0, 0, 0]])
R_AXES = {'e': R_DEFAULT, 'E': np.eye(3)}


def ld(x):
    return np.asarray(x, dtype=L)


def dot(a, b):
    return (ld(a) * ld(b)).sum(axis=0)


def cross(a, b):
    a, b = np.broadcast_arrays(ld(a), ld(b))
    return np.stack([a[1] * b[2] - a[2] * b[1],
                     a[2] * b[0] - a[0] * b[2],
                     a[0] * b[1] - a[1] * b[0]])


def circle(a, b):
    """a x b, accurate for nearly parallel vectors of nearly equal length too"""
    a, b = ld(a), ld(b)
    return cross(a - b, a + b) / 2


def norm(a):
    a = ld(a)
    scale = np.abs(a).max(axis=0)
    scale = np.where((scale == 0) | ~np.isfinite(scale), L(1), scale)
    return scale * np.sqrt(((a / scale) ** 2).sum(axis=0))


def unit(a):
    a = ld(a)
    with np.errstate(all='ignore'):
        return a / norm(a)


def matvec(R, v):
    """R: 3x3 or 3x3xn, v: 3xn"""
    R, v = ld(R), ld(v)
    if R.ndim == 2:
        R = R[:, :, None]
    return (R * v[None, :, :]).sum(axis=1)


def matTvec(R, v):
    return matvec(np.swapaxes(ld(R), 0, 1), v)


def matmul(A, B):
    """3x3xn times 3x3xn"""
    A, B = ld(A), ld(B)
    if A.ndim == 2:
        A = A[:, :, None]
    if B.ndim == 2:
        B = B[:, :, None]
    return (A[:, :, None, :] * B[None, :, :, :]).sum(axis=1)


def latlon2n(lat, lon, R=R_DEFAULT):
    lat, lon = np.broadcast_arrays(ld(lat), ld(lon))
    # body axes: x -> north pole, y -> (lat 0, lon 90 E), z -> (lat 0, lon 180)
    v = np.stack([np.sin(lat), np.cos(lat) * np.sin(lon), -np.cos(lat) * np.cos(lon)])
    return matTvec(R, np.atleast_2d(v.T).T)


def n2latlon(n, R=R_DEFAULT):
    v = matvec(R, n)
    lat = np.arctan2(v[0], np.hypot(v[1], v[2]))
    lon = np.arctan2(v[1], -v[2])
    return lat, lon


def n2p(n, z, a, f, R=R_DEFAULT):
    """point with outward normal n at depth z (radius of curvature formula)"""
    v = unit(matvec(R, n))
    a, f, z = ld(a), ld(f), ld(z)
    e2 = f * (2 - f)
    N = a / np.sqrt(1 - e2 * v[0] ** 2)
    h = -z
    p = np.stack([(N * (1 - e2) + h) * v[0], (N + h) * v[1], (N + h) * v[2]])
    return matTvec(R, p)


def pole(R=R_DEFAULT):
    return matTvec(R, np.array([[1.], [0], [0]]))


def north_east(n, R=R_DEFAULT):
    """unit vectors towards north and east at n, decomposed in E (not at the poles)"""
    n = unit(n)
    k = pole(R)
    east = unit(cross(k, n))
    return cross(n, east), east


def cos_lat(n, R=R_DEFAULT):
    v = unit(matvec(R, n))
    return np.hypot(v[1], v[2])


def R_EN(n, R=R_DEFAULT):
    n = unit(n)
    north, east = north_east(n, R)
    return np.stack([north, east, -n], axis=1)


def elementary(axis, angle):
    angle = np.atleast_1d(ld(angle))
    c, s, o, l = np.cos(angle), np.sin(angle), np.zeros_like(angle), np.ones_like(angle)
    return {'x': np.array([[l, o, o], [o, c, -s], [o, s, c]]),
            'y': np.array([[c, o, s], [o, l, o], [-s, o, c]]),
            'z': np.array([[c, -s, o], [s, c, o], [o, o, l]])}[axis]


def rot_xyz(x, y, z):
    return matmul(matmul(elementary('x', x), elementary('y', y)), elementary('z', z))


def rot_zyx(z, y, x):
    return matmul(matmul(elementary('z', z), elementary('y', y)), elementary('x', x))


def angle(a, b):
    """angle between vectors, accurate for every angle"""
    return np.arctan2(norm(cross(a, b)), dot(a, b))


def chord(a, b):
    return norm(ld(b) - ld(a))


def destination(n, ang, az, R=R_DEFAULT):
    north, east = north_east(n, R)
    ang, az = ld(ang), ld(az)
    d = north * np.cos(az) + east * np.sin(az)
    return ld(n) * np.cos(ang) + d * np.sin(ang)


def wrap(x):
    """angle difference folded to [-pi, pi]"""
    x = ld(x)
    k = np.round(x / (2 * PI))
    return x - k * TURN - k * REST


def foot(a1, a2, b):
    """closest point to b on the great circle through a1 and a2"""
    c = unit(circle(a1, a2))
    return unit(ld(b) - dot(c, b) * c)
