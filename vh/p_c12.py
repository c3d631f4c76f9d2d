"""C12: detector coordinates follow from the hit position; charge resolution."""
import warnings

import numpy as np
import astropy.units as u
from astropy.table import QTable

from .core import Check
from .num import num, vec, mat
from . import rand, zoo, phot

from marxs.optics import FlatDetector, CircularDetector, FlatStack, EnergyFilter
from marxs.optics.detector import CCDRedistNormal
from marxs.simulator import Parallel

CHECK = Check('C12', assumptions=['photons within 1e-9 (1e-6 for cylinders) of an edge are not judged',
                                  'coordinates are compared to 1e-7 of the lengths involved',
                                  'curved detectors are circular (equal stretching in x and y)'])
CHECK.mc('DetectorsMC')


def hits(s, el, rng, surf, M, det=None, n=12):
    det = det or el
    pos, dr = zoo.aimed(rng, zoo.Spec('d', el, [surf], angle=1.3), n, M=M)
    t = rand.photons(rng, pos, dr)
    if rng.random() < 0.2:
        for c in det.loc_coos_name + det.detpix_name:
            t[c] = rng.uniform(-5, 5, n)
    b = phot.snapshot(t)
    a = phot.snapshot(el(t))
    hit = np.asarray(el.geometry.intersect(rand.hom(dr, 0), rand.hom(pos, 1))[0], bool)
    for i in np.nonzero(hit)[0]:
        s.emit('hit', b=phot.row(b, i, ()), a=phot.row(a, i, ()), dx=num(a[det.loc_coos_name[0]][i]),
               dy=num(a[det.loc_coos_name[1]][i]), px=num(a[det.detpix_name[0]][i]), py=num(a[det.detpix_name[1]][i]))


def build(make):
    """build a detector, tell which axes it warns about"""
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        el = make()
    said = [str(x.message) for x in w]
    return el, [i + 1 for i, ax in enumerate('xy') if any(f'direction {ax}' in m for m in said)]


@CHECK.scenario(quick=400, thorough=6000, trace='DetectorsTrace', chunks=4)
def flat(rec, rng, n):
    for j in range(n):
        with rec.session('flat detector') as s:
            w = [10 ** rng.uniform(-3, 1), 1., 0.024][j % 3]
            npix = rng.integers(1, [9, 3000][j % 2], 2)
            frac = np.zeros(2) if j % 4 else rng.uniform(-0.45, 0.45, 2)
            Z = np.r_[10 ** rng.uniform(-1, 1), (npix + frac) * w / 2]
            M = rand.aff(rng.normal(size=3) * 20, rand.rotation(rng) if j % 5 else np.eye(3), Z)
            ign = bool(rng.random() < 0.3)
            kw = dict(pixsize=w, pos4d=M.copy())
            if ign:
                kw['ignore_pixel_warning'] = True
            if j % 7 == 0:
                kw.pop('pixsize')
                w = 1.
            el, warned = build(lambda: FlatDetector(**kw))
            surf = zoo.surf(M)
            s.emit('det', kind='flat', surf=surf, w=num(w), n=[int(x) for x in el.npix], ignore=ign, warned=warned)
            hits(s, el, rng, surf, M)


@CHECK.scenario(quick=250, thorough=4000, trace='DetectorsTrace', chunks=4)
def curved(rec, rng, n):
    for j in range(n):
        with rec.session('curved detector') as s:
            w = 10 ** rng.uniform(-3, 1)
            R = 10 ** rng.uniform(0, 3)
            M = rand.aff(rng.normal(size=3) * 20, rand.rotation(rng), [R, R, 10 ** rng.uniform(-1, 2)])
            kw = {}
            arc = zoo.FULL
            if j % 2:
                lo = rng.uniform(-np.pi, np.pi)
                hi = rng.uniform(lo, np.pi)
                kw['phi_lim'] = [lo, hi]
                arc = {'lo': vec([np.cos(lo), np.sin(lo)]), 'hi': vec([np.cos(hi), np.sin(hi)]),
                       'wide': bool(hi - lo > np.pi), 'full': False}
            if j % 7 == 0:
                w = 1.
            else:
                kw['pixsize'] = w
            el = CircularDetector(pos4d=M.copy(), **kw)
            surf = zoo.surf(M, 'cylinder', arc)
            s.emit('det', kind='curved', surf=surf, w=num(w), n=[0, 0], ignore=True, warned=[])
            hits(s, el, rng, surf, M)


@CHECK.scenario(quick=60, thorough=800, trace='DetectorsTrace')
def assemblies(rec, rng, n):
    """the same for detectors in stacks and in groups"""
    for j in range(n):
        with rec.session('detectors in stacks and groups') as s:
            w = 10 ** rng.uniform(-2, 0)
            npix = rng.integers(1, 200, 2)
            M = rand.aff(rng.normal(size=3) * 20, rand.rotation(rng), np.r_[1., npix * w / 2])
            if j % 2:
                el = FlatStack(pos4d=M.copy(), elements=[FlatDetector, EnergyFilter],
                               keywords=[{'pixsize': w}, {'filterfunc': lambda e: np.ones_like(e)}])
                det = el.elements[0]
            else:
                base = rand.rigid(rng)
                grp = Parallel(elem_class=FlatDetector, elem_args={'pixsize': w}, pos4d=base,
                               elem_pos=[np.linalg.inv(base) @ M])
                el = det = grp.elements[0]
            surf = zoo.surf(M)
            s.emit('det', kind='flat', surf=surf, w=num(w), n=[int(x) for x in det.npix], ignore=True, warned=[])
            hits(s, el, rng, surf, M, det)


@CHECK.scenario(quick=60, thorough=1200, trace='DetectorsTrace', chunks=2)
def charge_resolution(rec, rng, n):
    for j in range(n):
        with rec.session('charge resolution') as s:
            k = int(rng.integers(2, 6))
            en = np.sort(rng.uniform(0.2, 9, k))
            wid = rng.uniform(0.02, 0.2, k)
            fwhm = bool(j % 2)
            un = [u.keV, u.eV][(j // 2) % 2]
            t = QTable({'energy': (en * u.keV).to(un)})
            t['FWHM' if fwhm else 'sigma'] = (wid * u.keV).to([u.keV, u.eV][(j // 4) % 2])
            if j % 6 == 0:     # a table can hold more than is used, sigma is what is needed
                t['FWHM'] = t['sigma'] * rng.uniform(1.5, 4)
            M = rand.aff(rng.normal(size=3) * 20, rand.rotation(rng), 10 ** rng.uniform(0, 1, 3))
            el = CCDRedistNormal(tab_width=t, pos4d=M.copy())
            s.emit('ccd', tab={'en': vec(en), 'w': vec(wid), 'fwhm': fwhm})
            for _ in range(4):
                e = rng.uniform(0.1, 10)
                ask = [e * u.keV, (e * u.keV).to(u.eV), (e * u.keV).to(u.Angstrom, equivalencies=u.spectral())][
                    int(rng.integers(3))]
                sig = el.sig_ccd(ask)
                s.emit('width', en=num(e), sig=num(sig.to_value(u.keV)))
                x = e + rng.normal() * 0.2
                s.emit('cdf', x=num(x), loc=num(e), p=num(float(el.cdf(x * u.keV, e * u.keV))))
                al = rng.uniform(0.01, 0.999)
                es = np.array([e, rng.uniform(0.1, 10)])
                lo, hi = el.interval(al, es * u.keV)
                for q in range(2):
                    s.emit('inter', alpha=num(al), loc=num(es[q]), lo=num(lo[q].to_value(u.keV)), hi=num(hi[q].to_value(u.keV)))
            m = 250
            pos, dr = zoo.aimed(rng, zoo.Spec('d', el, [zoo.surf(M)], angle=1.), m, miss=0.2, M=M)
            ph = rand.photons(rng, pos, dr, energy=rng.uniform(0.1, 10, m))
            e0 = np.array(ph['energy'])
            hit = np.asarray(el.geometry.intersect(rand.hom(dr, 0), rand.hom(pos, 1))[0], bool)
            ph = el(ph)
            s.emit('redist', en=vec(e0), en1=vec(ph['energy']), de=vec(ph['energy_detected']), reach=[bool(x) for x in hit])
