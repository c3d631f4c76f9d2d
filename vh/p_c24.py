"""C24: scatter."""
import numpy as np
import astropy.units as u

from .core import Check
from .num import num, vec, mat
from . import rand, phot

from marxs.optics import RadialMirrorScatter, RandomGaussianScatter
from marxs.math.rotations import axangle2mat

CHECK = Check('C24')
CHECK.mc('ScatterMC')

UNITS = [u.rad, u.deg, u.arcmin, u.arcsec]


def width(rng, zero=0.3):
    if rng.random() < zero:
        return 0. * UNITS[int(rng.integers(4))], 0.
    w = 10 ** rng.uniform(-6, -0.7)
    un = UNITS[int(rng.integers(4))]
    return (w * u.rad).to(un), float((w * u.rad).to(un).to(u.rad).value)


def aimed(rng, M, m, frac=0.7, far=20.):
    """rays that hit (or miss) the element, hit positions"""
    yz = rng.uniform(-0.97, 0.97, (m, 2))
    miss = rng.random(m) > frac
    yz[miss] = rng.choice([-1, 1], (miss.sum(), 2)) * rng.uniform(1.05, 3, (miss.sum(), 2))
    hit = (M @ np.column_stack([np.zeros(m), yz, np.ones(m)]).T).T[:, :3]
    nrm = M[:3, 0] / np.linalg.norm(M[:3, 0])
    style = rng.integers(5)
    if style == 0:
        d = np.tile(nrm * rng.choice([-1, 1]), (m, 1))
    elif style == 1:
        d = nrm * rng.choice([-1, 1]) + rng.normal(size=(m, 3)) * 0.02
    else:
        d = rand.unit(rng, m)
    d = d / np.linalg.norm(d, axis=1)[:, None]
    d[np.abs(d @ nrm) < 0.05] = nrm
    t = rng.uniform(0, far, m) if rng.random() < 0.7 else np.zeros(m)
    if rng.random() < 0.3:
        t = np.zeros(m)
    return hit - t[:, None] * d, d, hit, ~miss


def place(rng):
    k = rng.integers(4)
    zoom = rng.uniform(0.3, 200, 3)
    if k == 0:
        return rand.aff(Z=zoom)
    if k == 1:
        return rand.aff(t=rng.normal(size=3) * 100, Z=zoom)
    return rand.aff(t=rng.normal(size=3) * 20, R=rand.rotation(rng), Z=zoom)


@CHECK.scenario(quick=60, thorough=1500, trace='ScatterTrace', chunks=4)
def radial(rec, rng, n):
    for j in range(n):
        with rec.session('radial scatter') as s:
            M = place(rng)
            q1, w1 = width(rng)
            q2, w2 = width(rng)
            kw = {'inplanescatter': q1, 'perpplanescatter': q2}
            if w2 == 0 and rng.random() < 0.5:
                del kw['perpplanescatter']
            e = RadialMirrorScatter(pos4d=M, **kw)
            s.emit('radial', c=vec(M[:3, 3]), w1=num(w1), w2=num(w2))
            for rep in range(2):
                m = 5
                pos, d, hit, ishit = aimed(rng, M, m)
                if j % 5 == 0:      # through the centre
                    pos[0] = M[:3, 3]
                    hit[0], ishit[0] = M[:3, 3], True
                    pos[1] = M[:3, 3] - d[1] * 3
                    hit[1], ishit[1] = M[:3, 3], True
                run(s, rng, e, pos, d, hit, ishit, 'rhit', lambda a, i: {'a1': num(a['inplanescatter'][i]), 'a2': num(a['perpplanescatter'][i])})
    for j in range(max(2, n // 15)):
        with rec.session('widths of the radial scatter') as s:
            M = place(rng)
            (q1, w1), (q2, w2) = width(rng, 0.1), width(rng, 0.1)
            e = RadialMirrorScatter(pos4d=M, inplanescatter=q1, perpplanescatter=q2)
            s.emit('radial', c=vec(M[:3, 3]), w1=num(w1), w2=num(w2))
            a1, a2 = [], []
            for rep in range(2):
                pos, d, hit, ishit = aimed(rng, M, 200)
                ishit = hits(e, pos, d, ishit)
                t = rand.photons(rng, pos, d)
                t = e(t)
                a1.extend(num(x) for x in np.asarray(t['inplanescatter'])[ishit])
                a2.extend(num(x) for x in np.asarray(t['perpplanescatter'])[ishit])
            s.emit('rdraws', a1=a1, a2=a2)


def hits(e, pos, d, ishit):
    """rays that start on the element itself may count as hits or not (C03 judges that)"""
    return ishit & np.asarray(e.geometry.intersect(rand.hom(d, 0), rand.hom(pos, 1))[0])


def run(s, rng, e, pos, d, hit, ishit, kind, extra):
    t = rand.photons(rng, pos, d)
    ishit = hits(e, pos, d, ishit)
    b = phot.snapshot(t)
    t = e(t)
    a = phot.snapshot(t)
    for i in range(len(pos)):
        if ishit[i]:
            s.emit(kind, b=phot.row(b, i, []), a=phot.row(a, i, []), hit=vec(hit[i]), **extra(a, i))
        else:
            s.emit('miss', b=phot.row(b, i, []), a=phot.row(a, i, []))
    return t


class Func:
    def __init__(self, rng):
        self.a, self.b = rng.uniform(0.001, 0.3), rng.uniform(-0.02, 0.02)
        self.c = rng.uniform(-0.01, 0.01)
        self.unit = UNITS[int(rng.integers(4))]
        self.calls = []

    def angle(self, en, y):
        return self.a + self.b * en + self.c * y

    def __call__(self, photons, intersect, interpos, intercoos):
        intersect = np.array(intersect)
        self.calls.append((len(photons), intersect, np.array(interpos), np.array(intercoos)))
        out = self.angle(np.asarray(photons['energy'], float)[intersect], np.asarray(interpos)[intersect, 1])
        return (out * u.rad).to(self.unit)


def maker(rng, M, kind, w, f):
    """width or function, given as keyword or by a derived class"""
    if rng.random() < 0.7:
        return RandomGaussianScatter(pos4d=M, scatter=f if kind == 'function' else w)
    if kind == 'function':
        class Derived(RandomGaussianScatter):
            def scatter(self, photons, intersect, interpos, intercoos):
                return f(photons, intersect, interpos, intercoos)
    else:
        class Derived(RandomGaussianScatter):
            scatter = w
    return Derived(pos4d=M)


@CHECK.scenario(quick=60, thorough=1500, trace='ScatterTrace', chunks=4)
def random(rec, rng, n):
    for j in range(n):
        kind = ['width', 'function', 'zero', 'width'][j % 4]
        with rec.session('random scatter') as s:
            M = place(rng)
            q, w = width(rng, 1. if kind == 'zero' else 0.)
            f = Func(rng)
            e = maker(rng, M, kind, q if kind != 'zero' or rng.random() < 0.7 else 0, f)
            s.emit('random', how=kind, w=num(w))
            for rep in range(2):
                pos, d, hit, ishit = aimed(rng, M, 5)

                def extra(a, i):
                    return {'angle': num(a[e.scattername][i]) if kind != 'zero' else num(0),
                            'asked': num(f.angle(a['energy'][i], hit[i, 1]))}
                f.calls.clear()
                run(s, rng, e, pos, d, hit, ishit, 'shit', extra)
                for c in f.calls:
                    ishit = hits(e, pos, d, ishit)
                    ok = c[2].ndim == 2 and len(c[2]) == len(hit)
                    s.emit('func', n=c[0], want=len(hit), hits=[bool(x) for x in c[1]], wanthits=[bool(x) for x in ishit],
                           pos=[vec(x) for x in c[2][ishit]] if ok else [[[0]] * 3], wantpos=[vec(x) for x in hit[ishit]] if ok else [vec([1, 1, 1])])
    for j in range(max(3, n // 10)):
        kind = ['width', 'function', 'width'][j % 3]
        with rec.session('draws of the random scatter') as s:
            M = place(rng)
            q, w = width(rng, 0.)
            f = Func(rng)
            f.a, f.b, f.c = rng.choice([0.1, 0.01, 1e-3]), 0., 0.
            e = maker(rng, M, kind, q, f)
            s.emit('random', how=kind, w=num(w))
            old, new, ang = [], [], []
            for rep in range(2):
                pos, d, hit, ishit = aimed(rng, M, 420 if j % 2 else 150)
                if j % 2:       # a parallel beam
                    if rep == 0:
                        beam = d[int(rng.integers(len(d)))].copy()
                        if abs(beam @ M[:3, 0]) < 0.1 * np.linalg.norm(M[:3, 0]):
                            beam = M[:3, 0] / np.linalg.norm(M[:3, 0])
                    d = np.tile(beam, (len(d), 1))
                    pos = hit - 3 * d
                t = e(rand.photons(rng, pos, d))
                ishit = hits(e, pos, d, ishit)
                old += [vec(x) for x in d[ishit]]
                new += [vec(x[:3]) for x in np.asarray(t['dir'])[ishit]]
                ang += [num(x) for x in np.asarray(t[e.scattername])[ishit]]
            s.emit('sdraws', old=old, turned=new, angle=ang)
    with rec.session('scatter without a width') as s:
        with s.expect_error('random scatter without a width'):
            RandomGaussianScatter()


@CHECK.scenario(quick=60, thorough=2000, trace='ScatterTrace', chunks=2)
def rotations(rec, rng, n):
    for j in range(n):
        with rec.session('rotation matrices') as s:
            m = int(rng.integers(1, 5))
            axes = rand.unit(rng, m)
            if rng.random() < 0.3:
                axes[0] = np.eye(3)[int(rng.integers(3))] * rng.choice([-1, 1])
            normed = bool(j % 3 == 0)
            if not normed:
                axes = axes * 10 ** rng.uniform(-3, 3, (m, 1))
            ang = rng.choice([rng.uniform(-7, 7, m), rng.normal(size=m) * 1e-4, np.full(m, np.pi / 2), np.zeros(m)])
            keep = axes.copy()
            R = axangle2mat(axes, ang, True) if normed else axangle2mat(axes, ang)
            for i in range(m):
                s.emit('rot', axis=vec(keep[i]), angle=num(ang[i]), normed=normed, m=mat(R[i]))
        if j % 10 == 0:
            with rec.session('axes and angles that do not match') as s:
                with s.expect_error('different numbers of axes and angles'):
                    axangle2mat(rand.unit(rng, 3), rng.normal(size=2))
