"""C16: extended sky sources have the requested shape on the sky."""
import numpy as np
import astropy.units as u
from astropy.coordinates import SkyCoord, Angle

from .core import Check
from .num import num, vec
from .p_c14 import position

from marxs.source import PointSource, DiskSource, SphericalDiskSource, GaussSource, SymbolFSource, RadialDistributionSource

CHECK = Check('C16', assumptions=['random numbers are judged by frequencies within six standard deviations',
                                  'DiskSource up to 5 degrees and GaussSource up to 0.5 degrees (documented small-angle approximation)',
                                  'positions are compared to 1e-12 rad'])
CHECK.mc('SkyMC')


def centre(rng, j):
    ra, dec = position(rng)
    if j % 9 == 0:
        dec = float(rng.choice([-90., 90.]))
    c = SkyCoord(ra, dec, unit='deg')
    how = int(rng.integers(4))
    if how == 1:
        return c.galactic, c.galactic.icrs
    if how == 2:
        return c.transform_to('fk5'), c.transform_to('fk5').icrs
    return c, c


def angle(rng, a):
    q = a * u.rad
    how = int(rng.integers(4))
    return [q, q.to(u.deg), Angle(q.to(u.arcmin)), q.to(u.arcsec)][how]


def emit(s, rng, make, c, kind, n, fields):
    T = 10 ** rng.uniform(-1, 3)
    e0, p0 = rng.uniform(0.1, 8), rng.uniform(0, 6)
    src = make(flux=n / T / u.s / u.cm ** 2, energy=e0 * u.keV, polarization=p0 * u.rad)
    p = src(T * u.s)
    f = fields(src) if callable(fields) else fields
    s.emit('shape', kind=kind, c=vec([c.ra.deg, c.dec.deg]), ra=vec(p['ra']), dec=vec(p['dec']), t=vec(p['time']),
           en=vec(p['energy']), pol=vec(p['polangle']), prob=vec(p['probability']), en0=num(e0), pol0=num(p0),
           rate=num(n / T), T=num(T), **f)


@CHECK.scenario(quick=20, thorough=300, trace='SkyTrace')
def point(rec, rng, n):
    for j in range(n):
        with rec.session('point source') as s:
            given, c = centre(rng, j)
            if j % 5 == 0:
                given = f'{c.ra.deg:.15f}d {c.dec.deg:.15f}d'
                c = SkyCoord(given)
            emit(s, rng, lambda **k: PointSource(coords=given, **k), c, 'point', rng.uniform(1, 12), {})


@CHECK.scenario(quick=60, thorough=900, trace='SkyTrace', chunks=4)
def ring(rec, rng, n):
    for j in range(n):
        cls = [DiskSource, SphericalDiskSource][j % 2]
        with rec.session(cls.__name__) as s:
            given, c = centre(rng, j)
            ao = 10 ** rng.uniform(-5, np.log10(0.087 if j % 2 == 0 else np.pi))
            large = j % 4 == 1
            if large:
                ao = rng.uniform(0.7, np.pi)
            ai = [0., ao * rng.uniform(0, 1), ao * (1 - 10 ** rng.uniform(-3, 0))][int(rng.integers(3))]
            kw = dict(a_outer=angle(rng, ao))
            if ai:
                kw['a_inner'] = angle(rng, ai)
            emit(s, rng, lambda **k: cls(coords=given, **kw, **k), c, 'ring', rng.uniform(200, 260) * (2 if large else 1),
                 dict(ai=num(ai), ao=num(ao)))


@CHECK.scenario(quick=20, thorough=300, trace='SkyTrace')
def radial(rec, rng, n):
    for j in range(n):
        with rec.session('radial distribution') as s:
            given, c = centre(rng, j)
            seen = {}
            par = rng.uniform(0.5, 2)
            big = 10 ** rng.uniform(-4, np.log10(3.1))

            def func(m):
                seen.setdefault('asked', []).append(int(m))
                seen['d'] = big * rng.uniform(0, 1, m) ** par
                return (seen['d'] * u.rad).to([u.rad, u.arcmin][j % 2])
            emit(s, rng, lambda **k: RadialDistributionSource(coords=given, radial_distribution=func, func_par=3, **k), c,
                 'radial', rng.uniform(100, 200), lambda src: dict(d=vec(seen['d']), asked=seen['asked']))


@CHECK.scenario(quick=20, thorough=300, trace='SkyTrace', chunks=2)
def gauss(rec, rng, n):
    for j in range(n):
        with rec.session('Gaussian source') as s:
            given, c = centre(rng, j)
            sig = 10 ** rng.uniform(-5, -2)
            emit(s, rng, lambda **k: GaussSource(coords=given, sigma=angle(rng, sig), **k), c, 'gauss',
                 rng.uniform(200, 300), dict(s=num(sig)))


@CHECK.scenario(quick=20, thorough=300, trace='SkyTrace', chunks=2)
def letter(rec, rng, n):
    for j in range(n):
        with rec.session('letter source') as s:
            given, c = centre(rng, j)
            size = 10 ** rng.uniform(-4, -1)
            kw = dict(size=angle(rng, size))
            if j % 5 == 0:
                kw, size = {}, np.deg2rad(1.)
            emit(s, rng, lambda **k: SymbolFSource(coords=given, **kw, **k), c, 'letter', rng.uniform(100, 150),
                 dict(s=num(size)))
