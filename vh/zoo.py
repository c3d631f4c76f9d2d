"""One instance of every kind of optical element, with random placement and settings."""
import os

import numpy as np
import astropy.units as u
from astropy.table import QTable

from . import rand, tlc
from .num import mat, vec

from marxs import optics
from marxs.optics import (FlatDetector, CircularDetector, FlatGrating, CATGrating, OrderSelector, ThinLens,
                          PerfectLens, Baffle, RadialMirrorScatter, RandomGaussianScatter, EnergyFilter,
                          FlatStack, FlatBrewsterMirror)
from marxs.optics.detector import CCDRedistNormal
from marxs.optics.multiLayerMirror import MultiLayerMirror, MultiLayerEfficiency
from marxs.missions.mitsnl.catgrating import (L1, L2Abs, L2Diffraction, CATL1L2Stack, QualityFactor,
                                              NonParallelCATGrating)

FULL = {'lo': vec([1, 0]), 'hi': vec([1, 0]), 'wide': True, 'full': True}


def surf(M, shape='plane', arc=None):
    return {'shape': shape, 'M': mat(M), 'arc': arc or FULL}


class Spec:
    """An element and what a user knows about it."""

    def __init__(self, name, elem, surfs, absorber=False, moves=True, pol_neutral=True, deterministic=True,
                 idcol=None, idnum=None, angle=1.2, en=(0.35, 6.), needs=(), composite=False):
        self.name, self.elem, self.surfs = name, elem, surfs
        self.absorber = absorber
        self.moves = moves                  # hit photons are recorded at the hit position
        self.pol_neutral = pol_neutral
        self.deterministic = deterministic
        self.idcol, self.idnum = idcol, idnum
        self.angle = angle                  # largest useful incidence angle
        self.en = en
        self.needs = needs
        self.composite = composite          # turns the ray more than once


def smooth_filter(rng):
    a, b = rng.uniform(0.05, 0.5), rng.uniform(0.3, 3)
    return lambda x: a + 0.45 * np.cos(b * np.asarray(x, float)) ** 2


def write_ml_files(rng):
    d = os.path.join(tlc.work(), 'ml')
    os.makedirs(d, exist_ok=True)
    f1 = os.path.join(d, f'refl_{rng.integers(1 << 30)}.txt')
    f2 = os.path.join(d, f'pol_{rng.integers(1 << 30)}.txt')
    return f1, f2


KINDS = ['detector', 'circular detector', 'grating', 'CAT grating', 'thin lens', 'perfect lens', 'baffle',
         'radial scatter', 'gaussian scatter', 'zero scatter', 'energy filter', 'stack', 'brewster mirror',
         'ccd redistribution', 'multilayer mirror', 'quality factor', 'L1', 'L2 absorption', 'L2 diffraction',
         'CAT stack', 'nonparallel CAT', 'grating order table']


def make(kind, rng, M=None, **extra):
    Z = 10 ** rng.uniform(-0.5, 1, 3)
    if M is None:
        M = rand.aff(rng.normal(size=3) * 20, rand.rotation(rng), Z)
    if kind == 'circular detector':
        Zc = Z.copy()
        Zc[1] = Zc[0]
        M = rand.aff(M[:3, 3], M[:3, :3] / np.linalg.norm(M[:3, :3], axis=0), Zc)
    kw = dict(pos4d=M.copy())
    idcol = None
    idnum = None
    if rng.random() < 0.5:
        idcol, idnum = 'part_id', int(rng.integers(0, 50))
        kw.update(id_col=idcol, id_num=idnum)
    kw.update(extra)
    s = [surf(M)]
    sp = dict(idcol=idcol, idnum=idnum)
    if kind == 'detector':
        return Spec(kind, FlatDetector(pixsize=rng.uniform(0.01, 0.5), ignore_pixel_warning=True, **kw), s, **sp)
    if kind == 'circular detector':
        return Spec(kind, CircularDetector(pixsize=rng.uniform(0.01, 0.5), **kw), [surf(M, 'cylinder')], **sp)
    if kind == 'grating':
        return Spec(kind, FlatGrating(d=10 ** rng.uniform(-3.3, -2.5), order_selector=OrderSelector(
            [int(rng.integers(-4, 5))], [rng.uniform(0.1, 1.)]), groove_angle=rng.uniform(-3, 3), **kw), s, **sp)
    if kind == 'CAT grating':
        return Spec(kind, CATGrating(d=10 ** rng.uniform(-3.3, -2.5), order_selector=OrderSelector(
            [int(rng.integers(-4, 5))]), groove_angle=rng.uniform(-3, 3), **kw), s, **sp)
    if kind == 'grating order table':
        p = rng.uniform(0, 1, 5)
        return Spec(kind, FlatGrating(d=10 ** rng.uniform(-3.3, -2.5), order_selector=OrderSelector(
            [-2, -1, 0, 1, 2], p / p.sum() * rng.uniform(0.2, 1)), **kw), s, deterministic=False, **sp)
    if kind == 'thin lens':
        return Spec(kind, ThinLens(focallength=rng.uniform(30, 500), **kw), s, **sp)
    if kind == 'perfect lens':
        kw2 = dict(kw)
        if rng.random() < 0.5:
            kw2['d_center_optical_axis'] = rng.uniform(-20, 20)
        if rng.random() < 0.5:
            kw2['reflectivity_interpolator'] = lambda en, ang, grid: np.clip(0.95 - 0.3 * ang - 0.01 * en, 0, 1)
        return Spec(kind, PerfectLens(focallength=rng.uniform(50, 1000), **kw2), s, **sp)
    if kind == 'baffle':
        kw.pop('id_col', None)
        kw.pop('id_num', None)
        return Spec(kind, Baffle(**kw), s, absorber=True)
    if kind == 'radial scatter':
        return Spec(kind, RadialMirrorScatter(inplanescatter=rng.uniform(1, 1000) * u.arcsec,
                                              perpplanescatter=rng.choice([0, 30.]) * u.arcsec, **kw), s,
                    deterministic=False, **sp)
    if kind == 'gaussian scatter':
        return Spec(kind, RandomGaussianScatter(scatter=rng.uniform(1, 3000) * u.arcsec, **kw), s,
                    deterministic=False, **sp)
    if kind == 'zero scatter':
        return Spec(kind, RandomGaussianScatter(scatter=0 * u.arcsec, **kw), s, **sp)
    if kind == 'energy filter':
        return Spec(kind, EnergyFilter(filterfunc=smooth_filter(rng), **kw), s, **sp)
    if kind == 'stack':
        return Spec(kind, FlatStack(elements=[EnergyFilter, FlatDetector],
                                    keywords=[{'filterfunc': smooth_filter(rng)},
                                              {'pixsize': rng.uniform(0.01, 0.5), 'ignore_pixel_warning': True}],
                                    **kw), s, **sp)
    if kind == 'brewster mirror':
        return Spec(kind, FlatBrewsterMirror(**kw), s, pol_neutral=False, **sp)
    if kind == 'ccd redistribution':
        t = QTable({'energy': [0.1, 1., 4., 10.] * u.keV, 'sigma': rng.uniform(0.01, 0.1, 4) * u.keV})
        return Spec(kind, CCDRedistNormal(tab_width=t, **kw), s, deterministic=False, **sp)
    if kind == 'multilayer mirror':
        f1, f2 = write_ml_files(rng)
        x = np.linspace(0, 2 * np.linalg.norm(M[:3, 1]), 6)
        with open(f1, 'w') as f:
            f.write('X(mm)\tPeak lambda\tPeak\tFWHM(nm)\n')
            for i, xx in enumerate(x):
                f.write(f'{xx:.6f}\t{0.2 + 0.5 * i:.4f}\t{rng.uniform(1, 40):.4f}\t{rng.uniform(0.5, 3):.4f}\n')
        with open(f2, 'w') as f:
            f.write('Photon energy\tPolarization\n')
            for e in np.linspace(50, 12000, 7):
                f.write(f'{e:.3f}\t{rng.uniform(0.5, 1):.4f}\n')
        return Spec(kind, MultiLayerMirror(reflFile=f1, testedPolarization=f2, **kw), s, pol_neutral=False, **sp)
    if kind == 'quality factor':
        return Spec(kind, QualityFactor(**kw), s, needs=('order',), **sp)
    if kind == 'L1':
        return Spec(kind, L1(order_selector=OrderSelector([-1, 0, 1], [0.1, 0.5, 0.2]), **kw), s,
                    deterministic=False, **sp)
    if kind == 'L2 absorption':
        return Spec(kind, L2Abs(**kw), s, angle=0.6, **sp)
    if kind == 'L2 diffraction':
        return Spec(kind, L2Diffraction(**kw), s, deterministic=False, **sp)
    if kind == 'CAT stack':
        return Spec(kind, CATL1L2Stack(order_selector=OrderSelector([-3, 0, 2], [0.3, 0.3, 0.2]), **kw), s,
                    deterministic=False, angle=0.4, composite=True, **sp)
    if kind == 'nonparallel CAT':
        return Spec(kind, NonParallelCATGrating(order_selector=OrderSelector([int(rng.integers(-6, 7))]), d=2e-4,
                                                d_blaze_mm=rng.uniform(-1e-2, 1e-2), **kw), s, angle=0.5, **sp)
    raise ValueError(kind)


def aimed(rng, spec, n, miss=0.4, M=None):
    """positions and directions of photons, some aimed at the first surface, some beside it"""
    if M is None:
        from .num import dec
        M = np.array([[dec(x) for x in row] for row in spec.surfs[0]['M']])
    E = M[:3, :3] / np.linalg.norm(M[:3, :3], axis=0)
    if spec.surfs[0]['shape'] == 'cylinder':
        phi = rng.uniform(0, 2 * np.pi, n)
        z = rng.uniform(-1.3, 1.3, n)
        tgt = (M[:3, 3] + np.cos(phi)[:, None] * M[:3, 0] + np.sin(phi)[:, None] * M[:3, 1] +
               z[:, None] * M[:3, 2])
        start = M[:3, 3] + rng.normal(size=(n, 3)) * np.linalg.norm(M[:3, :3]) * 2
    else:
        uv = rng.uniform(-1, 1, (n, 2))
        out = rng.random(n) < miss
        uv[out] *= rng.uniform(1.0, 2.2, out.sum())[:, None]
        tgt = M[:3, 3] + uv[:, :1] * M[:3, 1] + uv[:, 1:] * M[:3, 2]
        th = rng.uniform(0.02, spec.angle, n)
        ph = rng.uniform(0, 2 * np.pi, n)
        side = rng.choice([-1., 1.], n)
        d = (side * np.cos(th))[:, None] * E[:, 0] + (np.sin(th) * np.cos(ph))[:, None] * E[:, 1] + (
            np.sin(th) * np.sin(ph))[:, None] * E[:, 2]
        start = tgt - d * rng.uniform(1, 50, n)[:, None]
        away = rng.random(n) < 0.12
        start[away] = tgt[away] + d[away] * 5
        return start, d
    d = tgt - start
    d /= np.linalg.norm(d, axis=1)[:, None]
    return start, d
