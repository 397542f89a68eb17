"""Hostile input generators.  Everything is a function of the numpy Generator passed in."""
import numpy as np

PI = np.pi
WGS84 = (6378137.0, 1.0 / 298.257223563)
NCOLS = (1, 1, 2, 3, 3, 4, 5, 7, 9, 17)


def ncols(rng):
    return int(NCOLS[rng.integers(len(NCOLS))])


def tiny(rng, n, lo=0, hi=16):
    return 10.0 ** (-rng.uniform(lo, hi, n))


def sign(rng, n):
    return rng.choice([-1.0, 1.0], n)


def _pick(rng, n, choices):
    k = rng.integers(len(choices), size=n)
    out = np.empty(n)
    for i, c in enumerate(choices):
        m = k == i
        if m.any():
            out[m] = c(int(m.sum()))
    return out


SPECIAL_LAT = np.radians([0, 0, 90, -90, 45, -45, 30, -30, 60, -60, 89, -89, 1, -1, 89.9999])
SPECIAL_LON = np.radians([0, 0, 180, -180, 90, -90, 45, -45, 135, -135, 1, 179, -179, 179.9999])


def lat(rng, n, poles=True):
    choices = [lambda k: np.arcsin(rng.uniform(-1, 1, k)),
               lambda k: np.arcsin(rng.uniform(-1, 1, k)),
               lambda k: rng.uniform(-PI / 2, PI / 2, k),
               lambda k: sign(rng, k) * tiny(rng, k, 0, 17),
               lambda k: np.radians(rng.integers(-89, 90, k).astype(float))]
    if poles:
        choices += [lambda k: rng.choice(SPECIAL_LAT, k),
                    lambda k: sign(rng, k) * (PI / 2 - tiny(rng, k, 0, 17))]
    return _pick(rng, n, choices)


def lon(rng, n, turns=False):
    choices = [lambda k: rng.uniform(-PI, PI, k),
               lambda k: rng.uniform(-PI, PI, k),
               lambda k: rng.choice(SPECIAL_LON, k),
               lambda k: sign(rng, k) * (PI - tiny(rng, k, 0, 17)),
               lambda k: sign(rng, k) * tiny(rng, k, 0, 17)]
    if turns:
        choices += [lambda k: rng.uniform(-4 * PI, 4 * PI, k),
                    lambda k: sign(rng, k) * (PI + tiny(rng, k, 0, 17)),
                    lambda k: np.radians(rng.choice([360., 540., -360, 720, 270, -270], k))]
    if turns == 'many':
        choices.append(lambda k: sign(rng, k) * 10 ** rng.uniform(1, 6, k))
    return _pick(rng, n, choices)


def normalize(v):
    v = v / np.abs(v).max(axis=0, keepdims=True)
    return v / np.sqrt((v * v).sum(axis=0, keepdims=True))


AXES6 = np.array([[1, 0, 0], [0, 1, 0], [0, 0, 1], [-1, 0, 0], [0, -1, 0], [0, 0, -1.0]]).T


def nvec(rng, n, poles=True):
    """n-vectors: from hostile lat/lon, isotropic, lattice directions, exact axes"""
    la, lo = lat(rng, n, poles), lon(rng, n)
    v = np.vstack((np.cos(la) * np.cos(lo), np.cos(la) * np.sin(lo), np.sin(la)))
    k = rng.integers(6, size=n)
    g = normalize(rng.normal(size=(3, n)))
    lattice = rng.integers(-3, 4, (3, n)).astype(float)
    lattice[0, (lattice == 0).all(axis=0)] = 1
    v = np.where(k == 1, g, v)
    v = np.where(k == 2, normalize(lattice), v)
    if poles:
        v = np.where(k == 3, AXES6[:, rng.integers(6, size=n)], v)
    return np.ascontiguousarray(v)


def perp(rng, a):
    """random unit vectors perpendicular to the columns of a"""
    g = rng.normal(size=a.shape)
    g -= (g * a).sum(axis=0) * a
    g = normalize(g)
    g -= (g * a).sum(axis=0) * a
    return normalize(g)


def near(rng, a, ang):
    """unit vectors at angle ang from the columns of a in a random direction"""
    return normalize(a * np.cos(ang) + perp(rng, a) * np.sin(ang))


def partner(rng, a, coincident=True, antipodal=True):
    """second position B for each A: independent, tiny separation, near antipodal, 90 degrees,
    same meridian / parallel, identical, exactly opposite"""
    n = a.shape[1]
    b = nvec(rng, n)
    k = rng.integers(10, size=n)
    close = near(rng, a, tiny(rng, n, 0, 15))
    far = near(rng, a, PI - tiny(rng, n, 0, 15))
    quarter = near(rng, a, np.full(n, PI / 2))
    mirror = a * np.array([[1.0], [1], [-1]])
    rot = rng.uniform(-PI, PI, n)
    c, s = np.cos(rot), np.sin(rot)
    par = np.vstack((c * a[0] - s * a[1], s * a[0] + c * a[1], a[2]))
    b = np.where((k == 1) | (k == 2), close, b)
    if antipodal:
        b = np.where(k == 3, far, b)
        b = np.where(k == 4, -a, b)
    b = np.where(k == 5, quarter, b)
    if coincident:
        b = np.where(k == 6, a, b)
    b = np.where(k == 7, mirror, b)
    b = np.where(k == 8, par, b)
    if not coincident:
        same = (b == a).all(axis=0)
        b = np.where(same, quarter, b)
    if not antipodal:
        opp = (b == -a).all(axis=0)
        b = np.where(opp, quarter, b)
    return np.ascontiguousarray(b)


def generic_pair(rng, n, lo=1e-3, hi=PI - 1e-3):
    """well conditioned pairs of positions, separated by lo..hi rad"""
    a = nvec(rng, n)
    k = rng.integers(3, size=n)
    ang = np.where(k == 0, rng.uniform(lo, hi, n), lo * (hi / lo) ** rng.uniform(0, 1, n))
    ang = np.where(k == 1, rng.uniform(min(0.2, hi / 2), min(2.0, hi), n), ang)
    return a, near(rng, a, np.clip(ang, lo, hi))


def depth(rng, n, a=6378137.0, big=True, deep=True):
    s = a / 6378137.0
    choices = [lambda k: np.zeros(k),
               lambda k: rng.uniform(-1e4, 1e4, k) * s,
               lambda k: sign(rng, k) * 10 ** rng.uniform(-3, 4, k) * s,
               lambda k: rng.integers(-500, 500, k).astype(float) * s]
    if big:
        choices += [lambda k: -10 ** rng.uniform(4, 9, k) * s,
                    lambda k: -10 ** rng.uniform(4, 7.6, k) * s]
    if deep:
        choices += [lambda k: 10 ** rng.uniform(4, 6, k) * s,
                    lambda k: rng.uniform(0, 6.0e6, k) * s]
    z = _pick(rng, n, choices)
    if a > 1e6 and rng.integers(12) == 0:
        z = np.trunc(z).astype(np.int64)       # whole numbers are depths too
    return z


def ellipsoid(rng, sphere=True, exotic=True):
    """(a, f): WGS-84, registry-like, spheres, other planets, unit sized"""
    k = rng.integers(8)
    if k <= 1:
        return WGS84
    if k == 2 and sphere:
        return float(rng.choice([6371009.0, 6371e3, 6378137.0, 1.0])), 0.0
    if k == 3 and sphere:
        return float(10 ** rng.uniform(-2, 9)), 0
    if k == 4 and exotic:
        return float(10 ** rng.uniform(-1, 9)), float(rng.uniform(1e-4, 0.02) if rng.integers(3) else 10 ** rng.uniform(-14, -4))
    if k == 5 and exotic:
        return float(rng.choice([3396190.0, 60268000.0, 71492000.0])), float(
            rng.choice([1 / 169.89444722361179, 0.09796, 0.06487]))
    return (float(rng.choice([6377563.396, 6378135.0, 6378388.0, 6377276.345, 6378206.4])),
            float(rng.choice([1 / 299.3249646, 1 / 298.26, 1 / 297., 1 / 300.8017, 1 / 294.9786982138])))


def rotation(rng):
    """uniformly distributed rotation matrix"""
    q = rng.normal(size=4)
    q /= np.sqrt((q * q).sum())
    w, x, y, z = q
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)],
                     [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)],
                     [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)]])


def signed_permutations():
    """the 24 rotation matrices with entries 0, 1, -1"""
    import itertools
    out = []
    for perm in itertools.permutations(range(3)):
        for s in itertools.product((1., -1.), repeat=3):
            R = np.zeros((3, 3))
            for i in range(3):
                R[i, perm[i]] = s[i]
            if np.linalg.det(R) > 0:
                out.append(R)
    return out


PERM24 = signed_permutations()


def R_Ee(rng):
    """(matrix or None, kind): default, both documented axes, other exact and random rotations"""
    k = rng.integers(6)
    if k <= 1:
        return None, 'default'
    if k == 2:
        return np.array([[0, 0, 1.0], [0, 1.0, 0], [-1.0, 0, 0]]), 'e'
    if k == 3:
        return np.eye(3), 'E'
    if k == 4:
        return PERM24[rng.integers(24)].copy(), 'perm'
    return rotation(rng), 'random'


def angle(rng, n, turns=True):
    choices = [lambda k: rng.uniform(-PI, PI, k),
               lambda k: rng.uniform(-PI, PI, k),
               lambda k: sign(rng, k) * tiny(rng, k, 0, 12),
               lambda k: rng.choice(np.radians([0., 90, -90, 180, -180, 45, 135, -135, 270, 200]), k)]
    if turns:
        choices.append(lambda k: rng.uniform(-4 * PI, 4 * PI, k))
    if turns == 'many':
        choices.append(lambda k: sign(rng, k) * 10 ** rng.uniform(1, 6, k))
    return _pick(rng, n, choices)


def layout(rng, x):
    """same values in another memory layout / writability"""
    k = rng.integers(6)
    if k == 0:
        return np.asfortranarray(x)
    if k == 1 and x.ndim >= 1:
        big = np.zeros(x.shape[:-1] + (2 * x.shape[-1],))
        big[..., ::2] = x
        return big[..., ::2]
    if k == 2:
        y = np.array(x)
        y.setflags(write=False)
        return y
    return np.array(x)
