"""C08: gratings obey the grating equation for every placement."""
import numpy as np

from .core import Check
from .num import num, vec, mat
from . import rand, zoo, phot

from marxs.optics import FlatGrating, CATGrating, FlatStack, OrderSelector
from marxs.simulator import Parallel, Sequence
from marxs.missions.mitsnl.catgrating import NonParallelCATGrating, CATL1L2Stack, L1
from marxs.design.bendgratings import bend_gratings

CHECK = Check('C08', assumptions=[
    'directions compared to 1e-7 (the code uses an older value of h*c, relative difference 4e-8)',
    'photons within 1e-9 (1e-6 for cylinders) of an edge and orders within 1e-8 of grazing are not judged'])
CHECK.mc('GratingsMC')


class Selector:
    """order table that returns arbitrary orders and remembers what it was asked"""

    def __init__(self, rng, mmax):
        self.rng, self.mmax, self.calls = rng, mmax, []

    def __call__(self, energy, pol, blaze):
        n = len(energy)
        m = self.rng.integers(-self.mmax, self.mmax + 1, n)
        p = self.rng.uniform(0, 1, n)
        self.calls.append((np.array(energy), np.array(blaze), m.copy(), p.copy()))
        return m, p


def emit_grating(s, surf, kind, refl, g, d0, da, db, bc, bm):
    s.emit('grating', surf=surf, kind=kind, refl=bool(refl), ca=num(np.cos(g)), sa=num(np.sin(g)), d0=num(d0), da=num(da),
           db=num(db), bc=num(bc), bm=num(bm))


def emit_photons(s, b, a, sel, order='order', blaze='blaze', hit=None, k0=0):
    if blaze not in a:      # nobody was hit
        return
    if hit is None:
        hit = np.isfinite(a[blaze])
    en, bl, m, p = sel.calls[-1]
    k = k0
    for i in np.nonzero(hit)[0]:
        s.emit('photon', b=phot.row(b, i, ()), a=phot.row(a, i, ()), m=num(a[order][i]), blaze=num(a[blaze][i]),
               sel={'en': num(en[k]), 'blaze': num(bl[k]), 'm': num(m[k]), 'p': num(p[k])})
        k += 1


def settings(rng, j):
    g = [0., rng.uniform(-np.pi, np.pi), np.pi / 2, -np.pi / 4, np.pi][j % 5]
    d0 = 10 ** (rng.uniform(-3.7, -2) if j % 6 else rng.uniform(-5, -4))
    da, db = (rng.uniform(-0.02, 0.02, 2) if j % 3 else (0., 0.))
    return g, d0, da, db


@CHECK.scenario(quick=1500, thorough=6000, trace='GratingsTrace', chunks=4)
def single_gratings(rec, rng, n):
    """all kinds, placements, groove angles, periods (also varying over the surface), orders, incidence"""
    for j in range(n):
        kind = ['flat', 'cat', 'nonparallel', 'reflection'][j % 4]
        with rec.session(kind + ' grating') as s:
            Z = 10 ** rng.uniform(-0.5, 1, 3)
            M = rand.aff(rng.normal(size=3) * 20, rand.rotation(rng) if j % 5 else np.eye(3), Z)
            g, d0, da, db = settings(rng, j)
            d = d0 if da == 0 else (lambda c: d0 * (1 + da * c[:, 0] + db * c[:, 1]))
            sel = Selector(rng, int(rng.integers(0, 12)))
            kw = dict(d=d, order_selector=sel, pos4d=M.copy())
            if g or j % 2:
                kw['groove_angle'] = g
            bc = bm = 0.
            if kind == 'flat':
                el = FlatGrating(**kw)
            elif kind == 'cat':
                el = CATGrating(**kw)
            elif kind == 'reflection':
                el = FlatGrating(transmission=False, **kw)
            else:
                bc, bm = rng.uniform(-0.1, 0.1), rng.uniform(-1e-2, 1e-2)
                el = NonParallelCATGrating(blaze_center=bc, d_blaze_mm=bm, **kw)
            sp = zoo.Spec(kind, el, [zoo.surf(M)], angle=rng.choice([0.05, 0.5, 1.45]))
            p, dr = zoo.aimed(rng, sp, 14, miss=0.15)
            if j % 7 == 0:     # perpendicular incidence
                sgn = rng.choice([-1., 1.])
                dr[:] = sgn * M[:3, 0] / np.linalg.norm(M[:3, 0])
            t = rand.photons(rng, p, dr, energy=10 ** rng.uniform(-1, 1, 14))
            b = phot.snapshot(t)
            a = phot.snapshot(el(t))
            emit_grating(s, zoo.surf(M), 'flat' if kind in ('flat', 'reflection') else 'cat', kind == 'reflection',
                         g, d0, da, db, bc, bm)
            emit_photons(s, b, a, sel)


@CHECK.scenario(quick=150, thorough=1500, trace='GratingsTrace', chunks=2)
def bent_gratings(rec, rng, n):
    """gratings bent to a cylinder after they were placed"""
    for j in range(n):
        kind = ['flat', 'cat'][j % 2]
        with rec.session('bent ' + kind + ' grating') as s:
            Z = np.array([1., rng.uniform(1, 20), rng.uniform(1, 20)])
            R = rand.rotation(rng)
            C = rng.normal(size=3) * 20
            g, d0, da, db = settings(rng, j)
            d = d0 if da == 0 else (lambda c: d0 * (1 + da * np.sin(c[:, 0]) + db * c[:, 1]))
            sel = Selector(rng, int(rng.integers(0, 5)))
            st = FlatStack(position=C, orientation=R, zoom=Z, elements=[FlatGrating if kind == 'flat' else CATGrating],
                           keywords=[{'d': d, 'order_selector': sel, 'groove_angle': g}])
            rad = Z[1] * rng.uniform(2, 30)
            bend_gratings([st], rad)
            dphi = np.arctan(Z[1] / rad)
            M = rand.aff(C - rad * R[:, 0], R, [rad, rad, Z[2]])
            arc = {'lo': vec([np.cos(dphi), -np.sin(dphi)]), 'hi': vec([np.cos(dphi), np.sin(dphi)]),
                   'wide': False, 'full': False}
            k = 12
            f = rng.uniform(-1.3, 1.3, k) * dphi
            z = rng.uniform(-1.3, 1.3, k) * Z[2]
            loc = np.stack([rad * np.cos(f) - rad, rad * np.sin(f), z], axis=1)
            tgt = C + loc @ R.T
            dr = rng.choice([-1., 1.], k)[:, None] * R[:, 0] + rng.normal(size=(k, 3)) * 0.3
            dr /= np.linalg.norm(dr, axis=1)[:, None]
            t = rand.photons(rng, tgt - dr * rng.uniform(0.1, 0.5, k)[:, None] * Z[1], dr, energy=10 ** rng.uniform(-0.5, 1, k))
            b = phot.snapshot(t)
            a = phot.snapshot(st(t))
            surf = zoo.surf(M, 'cylinder', arc)
            emit_grating(s, surf, kind, False, g, d0, da, db, 0., 0.)
            if sel.calls:
                emit_photons(s, b, a, sel)
            for i in range(k):
                s.emit('reach', b=phot.row(b, i, ()), hit=bool('blaze' in a and np.isfinite(a['blaze'][i])), a=phot.row(a, i, ()))


@CHECK.scenario(quick=150, thorough=1200, trace='GratingsTrace', chunks=2)
def assemblies(rec, rng, n):
    """gratings inside groups and stacks: every photon is diffracted by the facet it hits"""
    for j in range(n):
        with rec.session(['group', 'sequence', 'L1'][j % 3]) as s:
            g, d0, da, db = settings(rng, j)
            base = rand.rigid(rng)
            if j % 3 == 0:
                k = int(rng.integers(2, 5))
                rel = [rand.aff((rng.normal() * 0.1, 5. * i, rng.normal() * 0.3), rand.rotmat((0, 0, 1), rng.uniform(-0.3, 0.3))
                                @ rand.rotmat((1, 0, 0), rng.uniform(-3, 3))) for i in range(k)]
                sels = [Selector(rng, 4) for i in range(k)]
                ds = [d0 * rng.uniform(0.5, 2) for i in range(k)]
                par = Parallel(elem_class=CATGrating, elem_pos=[r.copy() for r in rel], pos4d=base, id_col='facet', elem_args={
                    'd': list(ds), 'order_selector': list(sels), 'groove_angle': g, 'zoom': [1, 1.5, 1.5]})
                Ms = [base @ r @ np.diag([1, 1.5, 1.5, 1]) for r in rel]
                P, D = [], []
                for M in Ms:
                    p, dr = zoo.aimed(rng, zoo.Spec('g', None, [zoo.surf(M)], angle=0.3), 4, M=M, miss=0.)
                    P.append(M[:3, 3] + (p - M[:3, 3]) * 1e-3 - dr * 0.02)
                    D.append(dr)
                t = rand.photons(rng, np.vstack(P), np.vstack(D))
                b = phot.snapshot(t)
                a = phot.snapshot(par(t))
                for i in range(k):
                    hit = a['facet'] == i
                    if sels[i].calls and len(sels[i].calls[-1][0]) == hit.sum() and all(
                            len(x.calls) <= 1 for x in sels):
                        emit_grating(s, zoo.surf(Ms[i]), 'cat', False, g, ds[i], 0., 0., 0., 0.)
                        emit_photons(s, b, a, sels[i], hit=hit)
            elif j % 3 == 1:
                k = 3
                Ms = [base @ rand.aff((2. * i, 0, 0), None, (1, 5, 5)) for i in range(k)]
                sels = [Selector(rng, 3) for i in range(k)]
                ds = [10 ** rng.uniform(-3, -2) for i in range(k)]
                gr = [FlatGrating(d=ds[i], order_selector=sels[i], pos4d=Ms[i], groove_angle=g) for i in range(k)]
                m = 8
                P = (base @ rand.hom(np.c_[np.full(m, -1.), rng.uniform(-1, 1, (m, 2))], 1).T).T[:, :3]
                D = np.c_[np.ones(m), rng.normal(size=(m, 2)) * 0.1]
                D = (D / np.linalg.norm(D, axis=1)[:, None]) @ base[:3, :3].T
                t = rand.photons(rng, P, D)
                snaps = []
                seq = Sequence(elements=gr, preprocess_steps=[lambda p: snaps.append(phot.snapshot(p))],
                               postprocess_steps=[lambda p: snaps.append(phot.snapshot(p))])
                seq(t)
                for i in range(k):
                    emit_grating(s, zoo.surf(Ms[i]), 'flat', False, g, ds[i], 0., 0., 0., 0.)
                    b, a = snaps[2 * i], snaps[2 * i + 1]
                    hit = np.array([len(sels[i].calls[-1][0]) == m] * m)
                    emit_photons(s, b, a, sels[i], hit=hit)
            else:
                # L1 grating: the bars' photons are not deflected, the others are
                sel = Selector(rng, 3)
                M = rand.aff(base[:3, 3], base[:3, :3], [1, 4, 4])
                el = L1(order_selector=sel, pos4d=M, groove_angle=g)
                m = 12
                p, dr = zoo.aimed(rng, zoo.Spec('l1', el, [zoo.surf(M)], angle=0.4), m, miss=0., M=M)
                t = rand.photons(rng, p, dr, energy=rng.uniform(0.3, 3, m))
                b = phot.snapshot(t)
                a = phot.snapshot(el(t))
                emit_grating(s, zoo.surf(M), 'cat', False, g, 0.005, 0., 0., 0., 0.)
                hit = np.isfinite(a['blaze_L1'])
                en, bl, mm, pp = sel.calls[-1]
                k = 0
                for i in np.nonzero(hit)[0]:
                    if a['order_L1'][i] != 0:
                        s.emit('photon', b=phot.row(b, i, ()), a=phot.row(a, i, ()), m=num(a['order_L1'][i]),
                               blaze=num(a['blaze_L1'][i]),
                               sel={'en': num(en[k]), 'blaze': num(bl[k]), 'm': num(mm[k]), 'p': num(pp[k])})
                    k += 1
