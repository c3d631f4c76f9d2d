"""C03: a ray hits a surface exactly when its forward path meets it."""
import numpy as np

from .core import Check
from .num import num, vec, mat
from . import rand

from marxs.math.geometry import FinitePlane, Cylinder
from marxs.optics import FlatDetector, CircularDetector, OpticalElement

CHECK = Check('C03', assumptions=[
    'rays closer than 1e-9 (planes) or 1e-6 (cylinders) of a border are only judged on exactly '
    'representable inputs', 'placements are shift o rotation o stretching along the own axes'])
CHECK.mc('SurfacesMC')

FULL = {'lo': vec([1, 0]), 'hi': vec([1, 0]), 'wide': True, 'full': True}


def arc(lo, hi):
    span = (hi - lo) % (2 * np.pi)
    return {'lo': vec([np.cos(lo), np.sin(lo)]), 'hi': vec([np.cos(hi), np.sin(hi)]),
            'wide': bool(span > np.pi), 'full': False}


def record(s, geo, p, d, exact=False):
    p4, d4 = rand.hom(p, 1), rand.hom(d, 0)
    p0, d0 = p4.copy(), d4.copy()
    hit, pos, loc = geo.intersect(d4, p4)
    e1, e2, en = geo.get_local_euklid_bases(np.nan_to_num(loc))
    for i in range(len(p)):
        s.emit('ray', p=vec(p[i]), d=vec(d[i]), exact=exact, hit=bool(hit[i]), pos=vec(pos[i, :3]),
               w=num(pos[i, 3]), loc=vec(loc[i]), e1=vec(e1[i]), e2=vec(e2[i]), en=vec(en[i]))
    s.emit('same', what='input-rays-not-changed', a=[vec(p0), vec(d0)], b=[vec(p4), vec(d4)])


def place_kwargs(rng, t, R, Z):
    M = rand.aff(t, R, Z)
    if rng.random() < 0.5:
        return M, {'pos4d': M.copy()}
    kw = {'position': np.array(t), 'orientation': R.copy(), 'zoom': np.array(Z)}
    return M, kw


@CHECK.scenario(quick=60, thorough=2500, trace="SurfacesTrace", chunks=4)
def planes(rec, rng, n):
    for _ in range(n):
        t = rng.normal(size=3) * 10 ** rng.uniform(-1, 3)
        R = rand.rotation(rng)
        Z = 10 ** rng.uniform(-1, 2, 3)
        M, kw = place_kwargs(rng, t, R, Z)
        with rec.session('random plane', pos4d=M) as s:
            geo = FinitePlane(kw) if rng.random() < 0.7 else FlatDetector(**kw).geometry
            s.emit('place', shape='plane', M=mat(M), arc=FULL)
            m = 14
            uv = rng.uniform(-1.6, 1.6, (m, 2))
            uv[0] = [0.9999, 0.3]
            uv[1] = [-0.2, 1.0001]
            target = M[:3, 3] + uv[:, :1] * M[:3, 1] + uv[:, 1:] * M[:3, 2]
            start = target + rng.normal(size=(m, 3)) * np.max(Z) * 3
            start[rng.random(m) < 0.15] = target[0]
            d = target - start
            flip = rng.random(m) < 0.3
            d[flip] *= -1
            bad = np.linalg.norm(d, axis=1) < 1e-3
            d[bad] = rand.unit(rng, bad.sum())
            if rng.random() < 0.4:      # grazing: almost in the plane
                g = rng.random(m) < 0.4
                k = g.sum()
                a = rng.uniform(0, 2 * np.pi, (k, 1))
                d[g] = np.cos(a) * R[:, 1] + np.sin(a) * R[:, 2] + rng.choice([-1, 1], (k, 1)) * 10 ** rng.uniform(-5, -1.5, (k, 1)) * R[:, 0]
                start[g] = target[g] - d[g] * rng.choice([-1, 1, 1, 1], (k, 1)) * rng.uniform(0.1, 3, (k, 1)) * np.max(Z)
            d /= np.linalg.norm(d, axis=1)[:, None]
            if rng.random() < 0.2:      # also photons that never come near
                d[-1] = rand.unit(rng)
            record(s, geo, start, d)


def axis_rotations():
    out = []
    for a in range(3):
        for sa in (1, -1):
            for b in range(3):
                if b == a:
                    continue
                for sb in (1, -1):
                    x = np.zeros(3)
                    y = np.zeros(3)
                    x[a] = sa
                    y[b] = sb
                    out.append(np.array([x, y, np.cross(x, y)]).T)
    return out


@CHECK.scenario(quick=60, thorough=600, trace='SurfacesTrace')
def planes_exact(rec, rng, n):
    """borders included, rays in the plane, rays starting on the plane: exact arithmetic"""
    rots = axis_rotations()
    for j in range(n):
        R = rots[j % len(rots)]
        Z = 2. ** rng.integers(-2, 3, 3)
        t = rng.integers(-4, 5, 3).astype(float)
        M, kw = place_kwargs(rng, t, R, Z)
        with rec.session('exact plane', pos4d=M) as s:
            geo = FinitePlane(kw)
            s.emit('place', shape='plane', M=mat(M), arc=FULL)
            P, D = [], []
            for u in (-1.25, -1, 0.5, 1, 1.25):
                for v in (-1, 0.25, 1, 1.5):
                    for h in (-2., 0., 2.):
                        if rng.random() < 0.5:
                            P.append(M[:3, 3] + h * M[:3, 0] + u * M[:3, 1] + v * M[:3, 2])
                            D.append(-R[:, 0])
            P.append(M[:3, 3] + M[:3, 0])
            D.append(R[:, 1])            # parallel, off the plane
            P.append(M[:3, 3] + M[:3, 0])
            D.append(-R[:, 2])
            record(s, geo, np.array(P), np.array(D), exact=True)


@CHECK.scenario(quick=60, thorough=2500, trace="SurfacesTrace", chunks=4)
def cylinders(rec, rng, n):
    for j in range(n):
        t = rng.normal(size=3) * 10 ** rng.uniform(-1, 2)
        R = rand.rotation(rng)
        r = 10 ** rng.uniform(-1, 2)
        Z = np.array([r, r, 10 ** rng.uniform(-1, 2)])
        key = 'random cylinder'
        if rng.random() < 0.25:
            Z[1] *= rng.uniform(0.4, 2.5)
            key = 'elliptical cylinder'
        M, kw = place_kwargs(rng, t, R, Z)
        a = FULL
        if rng.random() < 0.7:
            lo = rng.uniform(-np.pi, np.pi)
            hi = lo + rng.uniform(0.2, 2 * np.pi - 0.2)
            if rng.random() < 0.5 and hi > np.pi:
                hi -= 2 * np.pi
            kw['phi_lim'] = [lo, hi]
            a = arc(lo, hi)
        with rec.session(key, pos4d=M, phi_lim=kw.get('phi_lim')) as s:
            geo = Cylinder(kw) if rng.random() < 0.7 else CircularDetector(**kw).geometry
            s.emit('place', shape='cylinder', M=mat(M), arc=a)
            m = 14
            phi = rng.uniform(0, 2 * np.pi, m)
            z = rng.uniform(-1.3, 1.3, m)
            target = (M[:3, 3] + np.cos(phi)[:, None] * M[:3, 0] + np.sin(phi)[:, None] * M[:3, 1] +
                      z[:, None] * M[:3, 2])
            # start inside, outside, far away
            f = rng.choice([0.3, 0.8, 2., 6.], m)[:, None]
            start = M[:3, 3] + f * (rng.normal(size=(m, 3)) * Z * 0.7) @ R.T
            d = target - start
            d[rng.random(m) < 0.2] *= -1
            if rng.random() < 0.4:
                d[0] = R[:, 2] * np.linalg.norm(d[0])  # along the axis
                d[0] += 1e-3 * rng.normal(size=3) * np.linalg.norm(d[0])
            d /= np.linalg.norm(d, axis=1)[:, None]
            record(s, geo, start, d)


@CHECK.scenario(quick=30, thorough=300, trace='SurfacesTrace')
def cylinders_exact(rec, rng, n):
    """tangents, borders, rays along the axis, rays that start on the surface"""
    rots = axis_rotations()
    for j in range(n):
        R = rots[j % len(rots)]
        r = 2. ** rng.integers(-1, 3)
        Z = np.array([r, r, 2. ** rng.integers(-1, 3)])
        t = rng.integers(-4, 5, 3).astype(float)
        M, kw = place_kwargs(rng, t, R, Z)
        with rec.session('exact cylinder', pos4d=M) as s:
            geo = Cylinder(kw)
            s.emit('place', shape='cylinder', M=mat(M), arc=FULL)
            P, D = [], []

            def add(q, d):
                P.append(M[:3, 3] + M[:3, :3] @ np.array(q, float))
                D.append(R @ np.array(d, float))
            for z in (-1.25, -1., 0., 1., 1.5):
                add([-2, 0, z], [1, 0, 0])
                add([2, 0, z], [1, 0, 0])       # leaving
                add([0, 0, z], [0, 1, 0])       # from the inside
                add([0.5, 0, z], [-1, 0, 0])
            add([0, 0, -3], [0, 0, 1])
            add([0.5, 0, 0], [0, 0, 1])
            add([3, 3, 0], [0, 0, -1])
            add([-2, 2, 0], [1, 0, 0])          # passes outside
            record(s, geo, np.array(P), np.array(D), exact=True)


@CHECK.scenario(quick=20, thorough=200, trace='SurfacesTrace')
def frames(rec, rng, n):
    """The same scene moved rigidly gives the same answers; single rays and lists agree."""
    for j in range(n):
        Z = 10 ** rng.uniform(-1, 1, 3)
        M = rand.aff(rng.normal(size=3), rand.rotation(rng), Z)
        with rec.session('single rays', pos4d=M) as s:
            geo = FinitePlane({'pos4d': M})
            m = 6
            tgt = M[:3, 3] + rng.uniform(-1.5, 1.5, (m, 2)) @ M[:3, 1:3].T
            p = tgt + rng.normal(size=(m, 3))
            d = (tgt - p) / np.linalg.norm(tgt - p, axis=1)[:, None]
            hit, pos, loc = geo.intersect(rand.hom(d, 0), rand.hom(p, 1))
            for i in range(m):
                h1, p1, l1 = geo.intersect(rand.hom(d[i], 0)[0], rand.hom(p[i], 1)[0])
                s.emit('same', what='single-ray-same-as-in-list', a=[bool(np.all(h1)), vec(np.ravel(p1)[:3].round(9))],
                       b=[bool(hit[i]), vec(pos[i, :3].round(9))])
