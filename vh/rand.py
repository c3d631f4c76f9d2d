"""Random inputs, written independently of the code under test."""
import numpy as np


def unit(rng, n=None):
    v = rng.normal(size=3 if n is None else (n, 3))
    return v / np.linalg.norm(v, axis=-1, keepdims=True)


def rotation(rng):
    """random proper rotation matrix from a random quaternion"""
    q = rng.normal(size=4)
    w, x, y, z = q / np.linalg.norm(q)
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
                     [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                     [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])


def rotmat(axis, angle):
    x, y, z = np.asarray(axis, float) / np.linalg.norm(axis)
    c, s = np.cos(angle), np.sin(angle)
    K = np.array([[0, -z, y], [z, 0, -x], [-y, x, 0]])
    return np.eye(3) + s * K + (1 - c) * (K @ K)


def aff(t=(0, 0, 0), R=None, Z=(1, 1, 1)):
    m = np.eye(4)
    m[:3, :3] = (np.eye(3) if R is None else np.asarray(R)) @ np.diag(np.asarray(Z, float))
    m[:3, 3] = t
    return m


def rigid(rng, scale=10.):
    return aff(rng.normal(size=3) * scale, rotation(rng))


def hom(v, w):
    v = np.atleast_2d(np.asarray(v, float))
    return np.hstack([v, np.full((len(v), 1), float(w))])


def perp(rng, d):
    """unit vectors perpendicular to the rows of d"""
    d = np.atleast_2d(d)
    r = unit(rng, len(d))
    p = r - np.sum(r * d, axis=1)[:, None] * d
    bad = np.linalg.norm(p, axis=1) < 1e-3
    while bad.any():
        r[bad] = unit(rng, bad.sum())
        p = r - np.sum(r * d, axis=1)[:, None] * d
        bad = np.linalg.norm(p, axis=1) < 1e-3
    return p / np.linalg.norm(p, axis=1)[:, None]


def photons(rng, pos, dir, energy=None, prob=None, pol=None):
    """photon table as a user would build it by hand"""
    from astropy.table import Table
    n = len(pos)
    t = Table()
    t['pos'] = hom(pos, 1)
    t['dir'] = hom(dir, 0)
    t['energy'] = rng.uniform(0.2, 8., n) if energy is None else np.array(np.broadcast_to(energy, n), float)
    t['energy'].unit = 'keV'
    t['polarization'] = hom(perp(rng, dir) if pol is None else pol, 0)
    t['probability'] = rng.uniform(0.1, 1., n) if prob is None else np.array(np.broadcast_to(prob, n), float)
    return t


def weighted(rng, f):
    """a point in homogeneous coordinates; the weight may be any number but 0"""
    w = 1. if rng.random() < 0.5 else float(rng.choice([-1, 1]) * rng.uniform(0.2, 5))
    return np.append(f, 1) * w
