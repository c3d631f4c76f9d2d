"""C11: directions stay unit vectors and polarization stays transverse."""
import numpy as np
import astropy.units as u
from astropy.coordinates import SkyCoord

from .core import Check
from .num import num, vec
from . import rand, zoo, phot
from .p_c01 import describe, make_photons, elements, all_miss, parallels, run_elem

from marxs.math.polarization import parallel_transport, paralleltransport_matrix, Q_reflection, polarization_vectors
from marxs.source import (PointSource, DiskSource, GaussSource, FixedPointing, JitterPointing)
from marxs.optics import (RectangleAperture, CircleAperture, MultiAperture, FlatGrating, CATGrating, OrderSelector)

CHECK = Check('C11', assumptions=['unit length to 1e-8, transversality to 1e-7'])
CHECK.mc('PhotonsMC')

CHECK.scenario(quick=330, thorough=6600, trace='PhotonsTrace', chunks=4)(elements('C11'))
CHECK.scenario(quick=44, thorough=880, trace='PhotonsTrace', chunks=2)(all_miss('C11'))


@CHECK.scenario(quick=100, thorough=2000, trace='PhotonsTrace', chunks=2)
def chains(rec, rng, n):
    """several elements in a row: errors must not build up"""
    for j in range(n):
        kinds = [zoo.KINDS[int(i)] for i in rng.choice(len(zoo.KINDS), 5)]
        kinds = [k for k in kinds if k not in ('multilayer mirror',)]
        with rec.session('chain ' + ' > '.join(kinds)) as s:
            Z = rng.uniform(2, 6, 3)
            R = rand.rotation(rng)
            sps = [zoo.make(k, rng, M=rand.aff(R[:, 0] * (-5. * i), R, Z)) for i, k in enumerate(kinds)]
            t = make_photons(rng, zoo.Spec('x', None, [zoo.surf(rand.aff((0, 0, 0), R, Z))],
                                           needs=('order',), angle=0.25), 10)
            start = phot.snapshot(t)
            for sp in sps:
                t = run_elem(s, sp, t, 'C11')
            end = phot.snapshot(t)
            for i in range(10):
                s.emit('free', a=phot.row(end, i, ()), len=num(np.linalg.norm(start['polarization'][i])))


@CHECK.scenario(quick=60, thorough=1200, trace='PhotonsTrace', chunks=2)
def from_the_sky(rec, rng, n):
    """source > pointing > aperture > elements"""
    for j in range(n):
        with rec.session('sky') as s:
            dec = float(rng.choice([rng.uniform(-89, 89), 89.9, -89.7, 0.]))
            c = SkyCoord(rng.uniform(0, 360), dec, unit='deg')
            kw = dict(coords=c, flux=20 / u.s / u.cm**2, geomarea=1 * u.cm**2, energy=1.5 * u.keV)
            if rng.random() < 0.6:
                kw['polarization'] = rng.uniform(0, 360) * u.deg
            w = rng.integers(3)
            src = [lambda: PointSource(**kw), lambda: DiskSource(a_outer=rng.uniform(0.1, 60) * u.arcmin, **kw),
                   lambda: GaussSource(sigma=rng.uniform(0.1, 60) * u.arcmin, **kw)][w]()
            pk = dict(coords=c.directional_offset_by(rng.uniform(0, 360) * u.deg, rng.uniform(0, 2) * u.deg),
                      roll=rng.uniform(-400, 400) * u.deg)
            R = rand.aff((0, 0, 0), rand.rotation(rng) if rng.random() < 0.6 else None)
            pk['reference_transform'] = R
            pnt = FixedPointing(**pk) if rng.random() < 0.5 else JitterPointing(
                jitter=rng.choice([0., 1., 600.]) * u.arcsec, **pk)
            t = src.generate_photons(0.5 * u.s)
            t = pnt(t)
            sn = phot.snapshot(t)
            for i in range(len(t)):
                s.emit('aimed', a={'dir': vec(sn['dir'][i]), 'pol': vec(sn['polarization'][i])})
            P = R @ rand.aff((5, 0, 0), None, [1, 3., 3.])
            ap = [lambda: RectangleAperture(pos4d=P), lambda: CircleAperture(pos4d=P),
                  lambda: MultiAperture(elements=[RectangleAperture(pos4d=P), CircleAperture(
                      pos4d=R @ rand.aff((5, 9, 0)))])][rng.integers(3)]()
            t = ap(t)
            sa = phot.snapshot(t)
            for i in range(len(t)):
                s.emit('free', a=phot.row(sa, i, ()), len=num(1.))
                s.emit('rowwise', what='an aperture changes neither direction nor polarization',
                       a=[vec(sn['dir'][i]), vec(sn['polarization'][i])],
                       b=[vec(sa['dir'][i]), vec(sa['polarization'][i])])
            for q in range(2):
                kind = [k for k in zoo.KINDS if k not in ('multilayer mirror', 'quality factor')][
                    int(rng.integers(len(zoo.KINDS) - 2))]
                sp = zoo.make(kind, rng, M=R @ rand.aff((-5. - 5 * q, 0, 0), None, [1, 4., 4.]))
                t['serial'] = np.arange(len(t))
                t = run_elem(s, sp, t, 'C11')


@CHECK.scenario(quick=100, thorough=2000, trace='PhotonsTrace')
def transport(rec, rng, n):
    """parallel transport with Jones matrices; reflection matrices"""
    for j in range(n):
        with rec.session('transport') as s:
            k = 6
            d1 = rand.unit(rng, k) * 10 ** rng.uniform(-2, 2, (k, 1))
            d2 = rand.unit(rng, k)
            small = rng.random(k) < 0.3
            u1 = d1 / np.linalg.norm(d1, axis=1)[:, None]
            d2[small] = u1[small] + rng.normal(size=(small.sum(), 3)) * 1e-3
            d2 *= 10 ** rng.uniform(-2, 2, (k, 1))
            pol = rand.perp(rng, u1) * rng.uniform(0.5, 2, (k, 1))
            J = rng.uniform(-1, 1, (2, 2))
            if j % 3 == 0:
                J = np.eye(2)
            if j % 3 == 1:
                J = np.diag(rng.uniform(0, 1, 2))
            kw = {} if j % 3 == 0 else {'jones': J}
            out = parallel_transport(rand.hom(d1, 0), rand.hom(d2, 0), rand.hom(pol, 0), **kw)
            pm = paralleltransport_matrix(d1, d2, **kw)
            u2 = d2 / np.linalg.norm(d2, axis=1)[:, None]
            for i in range(k):
                for o in (out[i], np.r_[pm[i] @ pol[i], 0]):
                    s.emit('transport', b={'dir': vec(rand.hom(u1[i], 0)[0]), 'pol': vec(rand.hom(pol[i], 0)[0])},
                           a={'dir': vec(rand.hom(u2[i], 0)[0]), 'pol': vec(o)},
                           js=num(J[0, 0]), jsp=num(J[0, 1]), jps=num(J[1, 0]), jp=num(J[1, 1]))
            # rays that are not turned keep their polarization
            out = parallel_transport(rand.hom(u1, 0), rand.hom(u1, 0), rand.hom(pol, 0), **kw)
            for i in range(k):
                s.emit('same', a=vec(out[i]), b=vec(rand.hom(pol[i], 0)[0]))
            # mirror
            q = Q_reflection(rand.hom(u1 - u2, 0))
            for i in range(k):
                if small[i]:
                    continue
                nrm = u1[i] - u2[i]
                nrm /= np.linalg.norm(nrm)
                s.emit('mirror', b={'dir': vec(rand.hom(u1[i], 0)[0]), 'pol': vec(rand.hom(pol[i], 0)[0])},
                       a={'dir': vec(rand.hom(u2[i], 0)[0]), 'pol': vec(q[i] @ np.r_[pol[i], 0])})
            # vectors for polarization angles
            dd = rand.unit(rng, k)
            dd[0] = [0, rng.choice([-1, 1]), 0]
            dd[1] = [[1e-5, 1, 0], [1, 0, 0], [0, 0, -1]][j % 3]
            dd[1] /= np.linalg.norm(dd[1])
            ang = rng.uniform(-7, 7, k)
            if j % 2:
                pv = polarization_vectors(rand.hom(dd * 3, 0), ang * u.rad)
            else:
                pv = polarization_vectors(rand.hom(dd * 3, 0), ang)
            for i in range(k):
                s.emit('polvec', dir=vec(dd[i]), ang=num(ang[i]), v=vec(pv[i]))


@CHECK.scenario(quick=40, thorough=600, trace='PhotonsTrace')
def evanescent(rec, rng, n):
    """orders that the grating equation does not allow do not produce photons with undefined direction"""
    for j in range(n):
        with rec.session('evanescent orders') as s:
            M = rand.rigid(rng)
            G = FlatGrating if j % 2 else CATGrating
            el = G(d=10 ** rng.uniform(-7.5, -6), order_selector=OrderSelector([int(rng.integers(-5, 6))]), pos4d=M,
                   transmission=bool(rng.random() < 0.7), groove_angle=rng.uniform(-3, 3))
            sp = zoo.Spec('grating', el, [zoo.surf(M)])
            t = make_photons(rng, sp, 12)
            run_elem(s, sp, t, 'C11')
