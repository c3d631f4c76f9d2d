"""C26: mirrors."""
import os

import numpy as np

from .core import Check
from .num import num, vec, mat
from . import rand, phot, tlc
from .p_c24 import place

from marxs.optics import FlatBrewsterMirror
from marxs.optics.multiLayerMirror import MultiLayerEfficiency, MultiLayerMirror

CHECK = Check('C26', assumptions=['photons meet a polarizing mirror obliquely (more than 0.06 deg from the normal)'])
CHECK.mc('MirrorsMC')


def beam(rng, M, m):
    yz = rng.uniform(-0.97, 0.97, (m, 2))
    miss = rng.random(m) < 0.15
    yz[miss] *= rng.choice([-1, 1], (miss.sum(), 1)) * 1.2 / np.max(np.abs(yz[miss]), axis=1, keepdims=True)
    hit = (M @ np.column_stack([np.zeros(m), yz, np.ones(m)]).T).T[:, :3]
    nrm = M[:3, 0] / np.linalg.norm(M[:3, 0])
    style = rng.integers(4)
    if style == 0:      # one direction, 45 degrees
        t = M[:3, 1] / np.linalg.norm(M[:3, 1])
        d = np.tile((t - nrm) / np.sqrt(2), (m, 1))
    elif style == 1:
        d = -nrm + rng.normal(size=(m, 3)) * 10 ** rng.uniform(-2, 0)
    else:
        d = rand.unit(rng, m)
    d = d / np.linalg.norm(d, axis=1)[:, None]
    flat = np.abs(d @ nrm) < 0.02
    d[flat] = (d[flat] + nrm) / np.linalg.norm(d[flat] + nrm, axis=1)[:, None]
    t = rng.uniform(0.01, 30, m)
    pol = rand.perp(rng, d)
    s = np.cross(d, nrm)
    for i in range(m):
        q = np.linalg.norm(s[i])
        if q > 1e-3 and rng.random() < 0.3:     # purely polarized
            pol[i] = s[i] / q if rng.random() < 0.5 else np.cross(d[i], s[i] / q)
            pol[i] *= rng.choice([-1, 1])
    return hit - t[:, None] * d, d, pol, ~miss


class Fresnel:
    def __init__(self, rng):
        self.a, self.b, self.c, self.d = rng.uniform(0.02, 0.14, 4)

    def rs(self, en, y):
        return 0.3 + self.a * np.cos(en) + self.b * np.cos(y)

    def rp(self, en, y):
        return 0.35 + self.c * np.sin(en) - self.d * np.cos(y)

    def mirror(self):
        f = self

        class Mirror(FlatBrewsterMirror):
            def fresnel(self, photons, intersect, intersection, local):
                en, y = np.asarray(photons['energy'])[intersect], np.asarray(local)[intersect, 0]
                return f.rs(en, y), f.rp(en, y)
        return Mirror


@CHECK.scenario(quick=120, thorough=4000, trace='MirrorsTrace', chunks=4)
def bounces(rec, rng, n):
    for j in range(n):
        with rec.session('flat mirror') as s:
            M = place(rng)
            how = j % 3
            f = Fresnel(rng)
            if how == 0:
                e, rs, rp = FlatBrewsterMirror(pos4d=M), 1., 0.
            elif how == 1:
                rs, rp = [(1., 1.), (0.5, 0.25), (0., 0.7), tuple(rng.uniform(0, 1, 2))][int(rng.integers(4))]

                class Mirror(FlatBrewsterMirror):
                    def fresnel(self, *args, value=(rs, rp)):
                        return value
                e = Mirror(pos4d=M)
            else:
                e = f.mirror()(pos4d=M)
            s.emit('mirror', M=mat(M))
            pos, d, pol, ishit = beam(rng, M, 6)
            t = rand.photons(rng, pos, d, pol=pol)
            b = phot.snapshot(t)
            t = e(t)
            a = phot.snapshot(t)
            yl = (np.column_stack([pos, np.ones(6)]) - 0)
            for i in range(6):
                if not ishit[i]:
                    s.emit('miss', b=phot.row(b, i, []), a=phot.row(a, i, []))
                    continue
                if how == 2:
                    # local y coordinate of the hit, from the recorded position
                    y = float((a['pos'][i][:3] - M[:3, 3]) @ (M[:3, 1] / np.linalg.norm(M[:3, 1])))
                    en = b['energy'][i]
                    rsi, rpi = f.rs(en, y), f.rp(en, y)
                else:
                    rsi, rpi = rs, rp
                s.emit('bounce', b=phot.row(b, i, []), a=phot.row(a, i, []), rs=num(rsi), rp=num(rpi))


def tables(rng, half):
    """reflectivity and polarization tables over a mirror of half length half"""
    k = int(rng.integers(2, 7))
    x = np.sort(rng.uniform(0, 2 * half, k))
    if rng.random() < 0.5:
        x[0], x[-1] = 0, 2 * half
    x = np.round(x, 6)
    if len(set(x)) < k:
        x = np.round(np.linspace(0, 2 * half, k), 6)
    lam = np.round(np.linspace(rng.uniform(0.3, 2), rng.uniform(3, 6), k), 5)
    peak = np.round(rng.uniform(0.5, 45, k), 4)
    fwhm = np.round(rng.uniform(0.3, 4, k), 5)
    if rng.random() < 0.3:
        fwhm[:2] = 0
    m = int(rng.integers(2, 6))
    en = np.round(np.sort(rng.uniform(0.1, 3, m)) * 1000, 3)
    frac = np.round(rng.uniform(0.5, 1, m), 5)
    d = os.path.join(tlc.work(), 'ml')
    os.makedirs(d, exist_ok=True)
    f1, f2 = (os.path.join(d, f'{w}_{rng.integers(1 << 40)}.txt') for w in ('refl', 'pol'))
    cols = {'X(mm)': x, 'Peak lambda': lam, 'Peak': peak, 'FWHM(nm)': fwhm}
    names = [str(q) for q in rng.permutation(list(cols))]
    with open(f1, 'w') as f:
        f.write('\t'.join(names) + '\n')
        for i in range(k):
            f.write('\t'.join(f'{cols[q][i]:.6f}' for q in names) + '\n')
    with open(f2, 'w') as f:
        f.write('Photon energy\tPolarization\n')
        for i in range(m):
            f.write(f'{en[i]:.6f}\t{frac[i]:.6f}\n')
    tab = {'x': vec(x), 'lam': vec(lam), 'peak': vec(peak), 'fwhm': vec(fwhm)}
    return f1, f2, tab, {'en': vec(en / 1000), 'frac': vec(frac)}


@CHECK.scenario(quick=80, thorough=2500, trace='MirrorsTrace', chunks=4)
def layers(rec, rng, n):
    for j in range(n):
        with rec.session('multilayer mirror') as s:
            M = place(rng)
            f1, f2, tab, pt = tables(rng, float(np.linalg.norm(M[:3, 1])))
            cls, kind = [(MultiLayerEfficiency, 'layer'), (MultiLayerMirror, 'both')][j % 2]
            e = cls(reflFile=f1, testedPolarization=f2, pos4d=M)
            s.emit('layered', M=mat(M), tab=tab, pol=pt)
            for rep in range(2):
                pos, d, pol, ishit = beam(rng, M, 5)
                en = 1.2398 / rng.uniform(0.4, 6, 5)
                t = rand.photons(rng, pos, d, pol=pol, energy=en)
                b = phot.snapshot(t)
                t = e(t)
                a = phot.snapshot(t)
                for i in range(5):
                    s.emit(kind if ishit[i] else 'miss', b=phot.row(b, i, []), a=phot.row(a, i, []))


@CHECK.scenario(quick=60, thorough=2000, trace='MirrorsTrace')
def chains(rec, rng, n):
    """several mirrors in a row, purely polarized light among it"""
    for j in range(n):
        with rec.session('mirrors in a row') as s:
            axis = rand.unit(rng)
            d = rand.unit(rng)
            at = np.zeros(3)
            pol = rand.perp(rng, np.tile(d, (3, 1)))
            first = None
            t = None
            for step in range(3):
                nrm = rand.unit(rng)
                while abs(nrm @ d) < 0.2 or abs(nrm @ d) > 0.98:
                    nrm = rand.unit(rng)
                if step > 0 and rng.random() < 0.5:     # normal in the same plane of incidence or across it
                    sv = np.cross(d, first)
                    sv /= np.linalg.norm(sv)
                    side = [np.cross(sv, d), sv][int(rng.integers(2))]
                    nrm = np.cos(0.8) * d + np.sin(0.8) * side
                a, b = np.cross(nrm, d), None
                a /= np.linalg.norm(a)
                R = np.column_stack([nrm, a, np.cross(nrm, a)])
                M = rand.aff(t=at, R=R, Z=[1, 50, 50])
                if t is None:
                    sv = np.cross(d, nrm) / np.linalg.norm(np.cross(d, nrm))
                    pol[0], pol[1] = sv, np.cross(d, sv)
                    t = rand.photons(rng, np.tile(-5 * d, (3, 1)), np.tile(d, (3, 1)), pol=pol)
                s.emit('mirror', M=mat(M))
                b = phot.snapshot(t)
                t = FlatBrewsterMirror(pos4d=M)(t)
                q = phot.snapshot(t)
                for i in range(3):
                    s.emit('bounce', b=phot.row(b, i, []), a=phot.row(q, i, []), rs=num(1), rp=num(0))
                d = d - 2 * (d @ nrm) * nrm
                at = at + 10 * d
                first = nrm
