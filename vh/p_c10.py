"""C10: lenses focus - parallel rays meet in one point, centre rays pass."""
import numpy as np

from .core import Check
from .num import num, vec, mat
from . import rand, zoo, phot

from marxs.optics import PerfectLens, ThinLens, FlatDetector
from marxs.simulator import Parallel, Sequence

CHECK = Check('C10', assumptions=['photons within 1e-9 of an edge are not judged',
                                  'focal points are compared to 1e-8 of the lengths involved'])
CHECK.mc('LensesMC')


class Refl:
    def __init__(self, rng):
        self.a, self.b, self.c = rng.uniform(0.6, 1), rng.uniform(0, 0.3), rng.uniform(0, 0.02)
        self.calls = []

    def __call__(self, en, ang, grid):
        r = np.clip(self.a - self.b * np.asarray(ang) - self.c * np.asarray(en), 0, 1)
        self.calls.append((np.array(en), np.array(ang), r.copy(), grid))
        return r


def emit(s, b, a, hit, refl):
    k = 0
    for i in np.nonzero(hit)[0]:
        asked = {'none': True}
        if refl is not None:
            en, ang, r, g = refl.calls[-1]
            asked = {'none': False, 'en': num(en[k]), 'ang': num(ang[k]), 'r': num(r[k])}
        s.emit('photon', b=phot.row(b, i, ()), a=phot.row(a, i, ()), asked=asked)
        k += 1


def bundle(rng, M, n, theta, exact=False):
    """n parallel rays through the element"""
    E = M[:3, :3] / np.linalg.norm(M[:3, :3], axis=0)
    th, ph = rng.uniform(0, theta), rng.uniform(0, 2 * np.pi)
    side = rng.choice([-1., 1.])
    d = side * np.cos(th) * E[:, 0] + np.sin(th) * (np.cos(ph) * E[:, 1] + np.sin(ph) * E[:, 2])
    if theta == 0:
        d = side * E[:, 0]
    uv = rng.uniform(-0.999, 0.999, (n, 2))
    uv[0] = 0
    uv[1, 0] = 0
    uv[2:5] *= 10 ** rng.uniform(-5, -1, (len(uv[2:5]), 1))   # close to the centre
    tgt = M[:3, 3] + uv[:, :1] * M[:3, 1] + uv[:, 1:] * M[:3, 2]
    step = rng.uniform(1, 40, n)
    return tgt - d * step[:, None], np.broadcast_to(d, (n, 3)).copy()


def lens(s, kind, M, f, d=0.):
    s.emit('lens', kind=kind, M=mat(M), f=num(f), d=num(d))


@CHECK.scenario(quick=400, thorough=6000, trace='LensesTrace', chunks=4)
def bundles(rec, rng, n):
    for j in range(n):
        kind = ['perfect', 'thin', 'perfect off-axis', 'perfect with reflectivity'][j % 4]
        with rec.session(kind + ' lens') as s:
            Z = np.r_[1., 10 ** rng.uniform(-0.3, 1.3, 2)]
            M = rand.aff(rng.normal(size=3) * 20, rand.rotation(rng) if j % 6 else np.eye(3), Z)
            f = 10 ** rng.uniform(1.7, 4)
            d = 0.
            refl = None
            if kind == 'thin':
                el = ThinLens(focallength=f, pos4d=M.copy())
            else:
                kw = {}
                if j % 4 >= 2 and (j // 4) % 2 or j % 4 == 2:
                    d = rng.uniform(-1, 1) * 20
                    kw['d_center_optical_axis'] = d
                if j % 4 == 3:
                    refl = Refl(rng)
                    kw['reflectivity_interpolator'] = refl
                el = PerfectLens(focallength=f, pos4d=M.copy(), **kw)
            pos, dr = bundle(rng, M, 8, [0., 1e-3, 0.1, 1.3][j % 4 if j % 7 else 0])
            t = rand.photons(rng, pos, dr)
            b = phot.snapshot(t)
            a = phot.snapshot(el(t))
            lens(s, 'thin' if kind == 'thin' else 'perfect', M, f, d)
            hit = np.asarray(el.geometry.intersect(rand.hom(dr, 0), rand.hom(pos, 1))[0], bool)
            emit(s, b, a, hit, refl)
            if kind != 'thin':
                i = np.nonzero(hit)[0]
                for k in range(len(i) - 1):
                    s.emit('meet', dir=vec(b['dir'][i[k]]), r1=phot.row(a, i[k], ()), r2=phot.row(a, i[k + 1], ()))


@CHECK.scenario(quick=120, thorough=1500, trace='LensesTrace', chunks=2)
def scattered_rays(rec, rng, n):
    """rays of all directions, some of which miss"""
    for j in range(n):
        kind = ['perfect', 'thin'][j % 2]
        with rec.session(kind + ' lens, any rays') as s:
            M = rand.aff(rng.normal(size=3) * 20, rand.rotation(rng), 10 ** rng.uniform(-0.3, 1.3, 3))
            f = 10 ** rng.uniform(1.5, 4)
            refl = Refl(rng) if j % 4 == 0 else None
            if kind == 'thin':
                el = ThinLens(focallength=f, pos4d=M.copy())
            else:
                kw = {} if refl is None else {'reflectivity_interpolator': refl}
                el = PerfectLens(focallength=f, pos4d=M.copy(), **kw)
            pos, dr = zoo.aimed(rng, zoo.Spec('l', el, [zoo.surf(M)], angle=rng.choice([0.1, 0.7])), 14, M=M)
            t = rand.photons(rng, pos, dr)
            b = phot.snapshot(t)
            a = phot.snapshot(el(t))
            lens(s, kind, M, f)
            hit = np.asarray(el.geometry.intersect(rand.hom(dr, 0), rand.hom(pos, 1))[0], bool)
            emit(s, b, a, hit, refl)


@CHECK.scenario(quick=40, thorough=500, trace='LensesTrace')
def mirror_segments(rec, rng, n):
    """a mirror made of off-axis segments in a ring: all share one focus"""
    for j in range(n):
        with rec.session('mirror of segments') as s:
            base = rand.rigid(rng)
            f = rng.uniform(500, 5000)
            k = int(rng.integers(2, 6))
            rad = rng.uniform(30, 100)
            ph = rng.uniform(0, 2 * np.pi) + np.arange(k) * 2 * np.pi / k
            th = rng.uniform(0, 0.01)
            dl = np.array([-np.cos(th), np.sin(th), 0.])
            for x in range(k):
                R = rand.rotmat((1, 0, 0), ph[x])
                M = base @ rand.aff(R @ np.array([0, 0, rad]), R, (1, 8, 8))
                el = PerfectLens(focallength=f, d_center_optical_axis=rad, pos4d=M)
                pos, _ = bundle(rng, M, 4, 0.)
                dr = np.broadcast_to(base[:3, :3] @ dl, (4, 3)).copy()
                uv = rng.uniform(-0.9, 0.9, (4, 2))
                pos = M[:3, 3] + uv[:, :1] * M[:3, 1] + uv[:, 1:] * M[:3, 2] - 10 * dr
                t = rand.photons(rng, pos, dr)
                b = phot.snapshot(t)
                a = phot.snapshot(el(t))
                # the optical centre common to all segments
                C = base.copy()
                lens(s, 'perfect', M, f, rad)
                emit(s, b, a, np.ones(4, bool), None)
                lens(s, 'perfect', C, f, 0.)
                for i in range(3):
                    s.emit('meet', dir=vec(b['dir'][i]), r1=phot.row(a, i, ()), r2=phot.row(a, i + 1, ()))
