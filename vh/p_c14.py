"""C14: pointing maps the sky rigidly into the instrument frame."""
import numpy as np
import astropy.units as u
from astropy.coordinates import SkyCoord
from astropy.table import Table

from .core import Check
from .num import num, vec, mat
from . import rand

from marxs.source import FixedPointing, JitterPointing, PointSource
from marxs.missions.chandra.dither import LissajousDither

CHECK = Check('C14', assumptions=['polarization is not judged within 1e-4 degrees of the celestial poles',
                                  'reference transformations are proper rotations (shifts are ignored for directions)',
                                  'random numbers are judged by frequencies within six standard deviations',
                                  'dither: amplitudes up to one arcmin, not closer to a pole than 10 degrees'])
CHECK.mc('SkyMC')

PERM = np.array([[0., 0, 1, 0], [1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 1]]).T


def position(rng, j=None):
    """somewhere on the sky, often where it is difficult"""
    k = int(rng.integers(6)) if j is None else j % 6
    ra = [rng.uniform(0, 360), rng.choice([0., 90, 180, 270]), (360 + rng.normal() * 1e-3) % 360][int(rng.integers(3))]
    dec = np.rad2deg(np.arcsin(rng.uniform(-1, 1)))
    if k == 0:
        dec = rng.choice([-1, 1]) * (90 - 10 ** rng.uniform(-3, 0))
    elif k == 1:
        dec = 0.
    return float(ra), float(dec)


def sky(rng, n, ra0, dec0):
    ra = rng.uniform(0, 360, n)
    dec = np.rad2deg(np.arcsin(rng.uniform(-1, 1, n)))
    near = rng.random(n) < 0.5
    dec[near] = np.clip(dec0 + rng.normal(size=near.sum()) * 10 ** rng.uniform(-4, 0), -90, 90)
    ra[near] = (ra0 + rng.normal(size=near.sum()) * 10 ** rng.uniform(-4, 0)) % 360
    ra[0], dec[0] = ra0, dec0
    return ra, dec


def photons(rng, ra, dec):
    n = len(ra)
    t = Table({'ra': ra, 'dec': dec, 'time': np.sort(rng.uniform(0, 3e4, n)), 'polangle': rng.uniform(-4, 7, n),
               'probability': rng.uniform(0, 1, n), 'energy': rng.uniform(0.1, 8, n)})
    if rng.random() < 0.5:
        for c, q in [('ra', u.deg), ('dec', u.deg), ('time', u.s), ('polangle', u.rad), ('energy', u.keV)]:
            t[c].unit = q
        for c in ('ra', 'dec', 'polangle'):
            if rng.random() < 0.3:  # the same sky, in another unit
                unit = [u.deg, u.rad, u.arcmin][rng.integers(3)]
                t[c] = t[c].data * q_of(c).to(unit)
                t[c].unit = unit
    return t


def q_of(c):
    return u.rad if c == 'polangle' else u.deg


def angle(t, c, i):
    '''The value in column ``c`` in the unit the specification uses (degrees on the sky, radian for the polarization).'''
    return t[c][i] if t[c].unit in (None, q_of(c)) else t[c].unit.to(q_of(c), t[c][i])


def refs(rng, j):
    return [np.eye(4), PERM, rand.rigid(rng), rand.aff((0, 0, 0), rand.rotation(rng))][j % 4]


def hdr(p):
    v = lambda x: x[0] if isinstance(x, tuple) else x
    return vec([v(p.meta[k]) for k in ('RA_PNT', 'DEC_PNT', 'ROLL_PNT', 'RA_NOM', 'DEC_NOM', 'ROLL_NOM')])


def rows(t):
    return [{'ra': num(angle(t, 'ra', i)), 'dec': num(angle(t, 'dec', i)), 'ang': num(angle(t, 'polangle', i)),
             'dir': vec(t['dir'][i]), 'pol': vec(t['polarization'][i])} for i in range(len(t))]


OTHER = ['ra', 'dec', 'time', 'polangle', 'probability', 'energy']


def build(rng, j):
    ra0, dec0 = position(rng, j)
    roll = [0., rng.uniform(-400, 400)][int(rng.random() < 0.7)]
    R = refs(rng, int(rng.integers(4)))
    kw = dict(coords=SkyCoord(ra0, dec0, unit='deg'))
    if roll or rng.random() < 0.5:
        kw['roll'] = (roll * u.deg).to([u.deg, u.rad, u.arcmin][int(rng.integers(3))])
    if not np.allclose(R, np.eye(4)) or rng.random() < 0.5:
        kw['reference_transform'] = R
    return ra0, dec0, roll, R, kw


@CHECK.scenario(quick=120, thorough=2000, trace='SkyTrace', chunks=4)
def fixed(rec, rng, n):
    for j in range(n):
        with rec.session('fixed pointing') as s:
            ra0, dec0, roll, R, kw = build(rng, j)
            if rng.random() < 0.15:
                kw['coords'] = kw['coords'].transform_to('galactic').transform_to('icrs')
                ra0, dec0 = kw['coords'].ra.deg, kw['coords'].dec.deg
            p = FixedPointing(**kw)
            P = {'ra': num(ra0), 'dec': num(dec0), 'roll': num(roll), 'ref': mat(R)}
            for _ in range(2):                    # a pointing can be used again
                t = photons(rng, *sky(rng, int(rng.integers(1, 14)), ra0, dec0))
                b = [vec(t[c]) for c in OTHER]
                t = p(t)
                s.emit('point', p=P, hdr=hdr(t), rows=rows(t))
                s.emit('same', b=b, a=[vec(t[c]) for c in OTHER])


@CHECK.scenario(quick=24, thorough=300, trace='SkyTrace', chunks=2)
def jitter(rec, rng, n):
    for j in range(n):
        with rec.session('jitter') as s:
            ra0, dec0, roll, R, kw = build(rng, j)
            sig = [0., 10 ** rng.uniform(-5, -2)][int(j % 4 > 0)]
            m = 220
            t = photons(rng, *sky(rng, m, ra0, dec0))
            top = 89.999 if t['dec'].unit is None else u.deg.to(t['dec'].unit, 89.999)
            t['dec'][:] = np.clip(t['dec'], -top, top)     # polarization is not defined at the poles
            f = FixedPointing(**kw)(t.copy())
            b = [vec(t[c]) for c in OTHER]
            q = (rng.choice([1, -1]) * sig * u.rad).to([u.rad, u.arcsec, u.deg][int(rng.integers(3))])
            a = JitterPointing(jitter=q, **kw)(t)
            take = lambda x: [{'dir': vec(x['dir'][i]), 'pol': vec(x['polarization'][i])} for i in range(m)]
            s.emit('jitter', b=take(f), a=take(a), sigma=num(sig), ref=mat(R))
            s.emit('same', b=b, a=[vec(a[c]) for c in OTHER])


@CHECK.scenario(quick=40, thorough=600, trace='SkyTrace', chunks=2)
def dither(rec, rng, n):
    for j in range(n):
        with rec.session('dither') as s:
            ra0, dec0 = rng.uniform(0, 360), rng.uniform(-80, 80)
            roll = [0., rng.uniform(-200, 200)][j % 2]
            c = SkyCoord(ra0, dec0, unit='deg')
            amp = rng.uniform(0, 3e-4, 3) * (rng.random(3) > 0.3)
            if j % 3 == 0:
                amp[2] = 0
            if j % 5 == 0:
                amp[:] = 0
            per = 10 ** rng.uniform(2, 4, 3)
            ph = rng.uniform(0, 6, 3)
            kw = {}
            if j % 7 == 3:
                amp = np.deg2rad([8 / 3600., 8 / 3600., 0])
                per = np.array([1000., 707., 1e5])
                ph = np.zeros(3)
            else:
                kw = dict(DitherAmp=(amp * u.rad).to([u.rad, u.arcsec][int(rng.integers(2))]),
                          DitherPeriod=(per * u.s).to([u.s, u.h][int(rng.integers(2))]),
                          DitherPhase=(ph * u.rad).to([u.rad, u.deg][int(rng.integers(2))]))
            p = LissajousDither(coords=c, roll=roll * u.deg, **kw)
            t = photons(rng, *sky(rng, 8, ra0, dec0))
            b = [vec(t[c]) for c in OTHER]
            t = p(t)
            s.emit('same', b=b, a=[vec(t[c]) for c in OTHER])
            at = np.asarray(p.pointing(np.array(t['time'])))
            P = {'ra': num(ra0), 'dec': num(dec0), 'roll': num(roll), 'ref': mat(np.eye(4))}
            s.emit('point', p=P, hdr=hdr(t), rows=[])
            for i, r in enumerate(rows(t)):
                s.emit('dither', p=P, t=num(t['time'][i]), at=vec(at[i]), amp=vec(amp), per=vec(per), ph=vec(ph), row=r,
                       size=num(np.abs(amp).max()), tol=num(2e-2))


@CHECK.scenario(quick=3, thorough=3, trace='SkyTrace')
def refused(rec, rng, n):
    with rec.session('array of pointings') as s:
        with s.expect_error('array of pointings'):
            FixedPointing(coords=SkyCoord([1., 2], [3., 4], unit='deg'))
