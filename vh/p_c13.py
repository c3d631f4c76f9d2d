"""C13: sources emit the requested number, times, energies and polarization."""
import numpy as np
import astropy.units as u
from astropy.coordinates import SkyCoord
from astropy.table import QTable, Table

from .core import Check, limit
from .num import num, vec

from marxs.source import (Source, PointSource, DiskSource, SphericalDiskSource, GaussSource, SymbolFSource,
                          LabPointSourceCone, FarLabPointSource, poisson_process)

CHECK = Check('C13', assumptions=['random numbers are judged by frequencies within six standard deviations',
                                  'a constant rate of flux x area x time photons may be off by one photon at the end'])
CHECK.mc('SourcesMC')

ASTRO = [PointSource, DiskSource, SphericalDiskSource, GaussSource, SymbolFSource]


def build(rng, which, **kw):
    """a source of some kind; returns it and its area in cm^2 (None: no area)"""
    if which < 2:
        area = rng.uniform(0.1, 20)
        unit = [u.cm ** 2, u.mm ** 2, u.m ** 2][int(rng.integers(3))]
        if which == 0:
            return Source(geomarea=(area * u.cm ** 2).to(unit), **kw), area
        cls = ASTRO[int(rng.integers(len(ASTRO)))]
        par = {DiskSource: {'a_outer': 5 * u.arcmin}, SphericalDiskSource: {'a_outer': 5 * u.arcmin},
               GaussSource: {'sigma': 3 * u.arcsec}}.get(cls, {})
        c = SkyCoord(rng.uniform(0, 360), rng.uniform(-80, 80), unit='deg')
        return cls(coords=c, geomarea=(area * u.cm ** 2).to(unit), **par, **kw), area
    return None, None


def energy_spec(rng, how):
    if how == 0:
        e = rng.uniform(0.1, 10)
        return e * u.keV, {'kind': 'const', 'v': num(e)}
    if how == 1:
        e = rng.uniform(0.1, 10)
        return (e * u.keV).to([u.eV, u.erg, u.J][int(rng.integers(3))]), {'kind': 'const', 'v': num(e)}
    if how == 2:
        w = rng.uniform(2, 60)
        q = [w * u.Angstrom, (w / 10) * u.nm][int(rng.integers(2))]
        return q, {'kind': 'angstrom', 'v': num(w)}
    if how == 3:
        k = int(rng.integers(2, 8))
        x = np.cumsum(rng.uniform(0.05, 2, k))
        y = rng.uniform(0, 3, k) * (rng.random(k) > 0.3)
        y[int(rng.integers(1, k))] = 10 ** rng.uniform(-1, 2)
        if rng.random() < 0.3:
            y[0] = 1000.
        tab = QTable({'energy': x * u.keV, 'fluxdensity': y / u.s / u.cm ** 2 / u.keV})
        if rng.random() < 0.5:
            tab = QTable({'energy': tab['energy'].to(u.eV),
                          'fluxdensity': tab['fluxdensity'].to(1 / u.s / u.m ** 2 / u.eV)})
        return tab, {'kind': 'table', 'x': vec(x), 'y': vec(y)}
    unit = [u.keV, u.eV, u.erg][int(rng.integers(3))]
    seen = {'kind': 'func', 'twoargs': False, 't': vec([]), 'en': vec([]), 'ret': vec([])}
    a, b = rng.uniform(0.5, 2), rng.uniform(0, 3)

    def f(t):
        seen['t'] = vec(t.to_value(u.s))
        out = (a + 0.1 * np.cos(b * np.arange(len(t))))
        seen['ret'] = vec(out)
        return (out * u.keV).to(unit)
    return f, seen


def pol_spec(rng, how):
    if how == 0:
        return None, {'kind': 'random'}
    if how == 1:
        a = rng.uniform(-4, 7)
        return (a * u.rad).to([u.rad, u.deg, u.arcmin][int(rng.integers(3))]), {'kind': 'const', 'v': num(a)}
    if how == 2:
        k = int(rng.integers(2, 7))
        x = np.cumsum(rng.uniform(0.05, 1, k)) - rng.uniform(0, 1)
        y = rng.uniform(0, 3, k) * (rng.random(k) > 0.3)
        y[int(rng.integers(1, k))] = 10 ** rng.uniform(-1, 1)
        if rng.random() < 0.3:
            y[0] = 500.
        tab = QTable({'angle': x * u.rad, 'probabilitydensity': y / u.rad})
        if rng.random() < 0.5:
            tab = QTable({'angle': tab['angle'].to(u.deg), 'probabilitydensity': tab['probabilitydensity'].to(1 / u.deg)})
        return tab, {'kind': 'table', 'x': vec(x), 'y': vec(y)}
    unit = [u.rad, u.deg][int(rng.integers(2))]
    seen = {'kind': 'func', 'twoargs': True, 't': vec([]), 'en': vec([]), 'ret': vec([])}
    a, b = rng.uniform(-3, 7), rng.uniform(0, 3)

    def f(t, en):
        seen['t'] = vec(t.to_value(u.s))
        seen['en'] = vec(en.to_value(u.keV))
        out = a + 2 * np.cos(b * np.arange(len(t)))
        seen['ret'] = vec(out)
        return (out * u.rad).to(unit)
    return f, seen


def header(v):
    return v[0] if isinstance(v, tuple) else v


def emit_run(s, src, T, Tq, flux, esrc, psrc):
    with limit(20, 'source'):
        p = src(Tq) if hash(str(T)) % 2 else src.generate_photons(Tq)
    s.emit('run', T=num(T), t=vec(p['time']), en=vec(p['energy']), pol=vec(p['polangle']), prob=vec(p['probability']),
           exposure=num(float(header(p.meta['EXPOSURE']))), flux=dict(flux), esrc=dict(esrc), psrc=dict(psrc))
    return p


def exposure(rng, T):
    return (T * u.s).to([u.s, u.ks, u.min, u.h][int(rng.integers(4))])


@CHECK.scenario(quick=160, thorough=2500, trace='SourcesTrace', chunks=4)
def constant_rate(rec, rng, n):
    for j in range(n):
        with rec.session('constant rate, all kinds of energy and polarization') as s:
            en, es = energy_spec(rng, j % 5)
            pol, ps = pol_spec(rng, (j // 5) % 4)
            many = 'table' in (es['kind'], ps['kind']) or j % 7 == 0
            N = rng.uniform(150, 300) if many else [rng.uniform(0, 3), float(rng.integers(1, 30)), rng.uniform(1, 40)][j % 3]
            T = 10 ** rng.uniform(-3, 5 if N > 100 else 3 if N > 10 else 1)
            src, area = build(rng, j % 2, energy=en, polarization=pol)
            flux = N / T / area
            unit = [1 / u.s / u.cm ** 2, 1 / u.h / u.m ** 2, 1 / u.ks / u.mm ** 2][int(rng.integers(3))]
            src.flux = (flux / u.s / u.cm ** 2).to(unit)
            emit_run(s, src, T, exposure(rng, T), {'kind': 'const', 'flux': num(flux), 'area': num(area)}, es, ps)


@CHECK.scenario(quick=40, thorough=600, trace='SourcesTrace')
def no_area(rec, rng, n):
    """flux per time only, for sources without an area and in the laboratory"""
    for j in range(n):
        with rec.session('flux without area') as s:
            en, es = energy_spec(rng, j % 5)
            pol, ps = pol_spec(rng, (j // 5) % 4)
            N = rng.uniform(1, 60)
            T = 10 ** rng.uniform(-3, 3)
            kw = dict(energy=en, polarization=pol, flux=(N / T / u.s).to([1 / u.s, 1 / u.h, u.Hz][j % 3]))
            if j % 3 == 0:
                src = Source(geomarea=None, **kw)
            elif j % 3 == 1:
                src = LabPointSourceCone(position=[1., 2, 3], **kw)
            else:
                src = FarLabPointSource([100., 2, 3], **kw)
            emit_run(s, src, T, exposure(rng, T), {'kind': 'const', 'flux': num(N / T), 'area': num(1)}, es, ps)


@CHECK.scenario(quick=24, thorough=400, trace='SourcesTrace', chunks=2)
def random_process(rec, rng, n):
    for j in range(n):
        with rec.session('random process') as s:
            mu = [10 ** rng.uniform(-2, 0), rng.uniform(1, 10), rng.uniform(30, 250)][j % 3]
            runs = [40, 20, 3][j % 3]
            T = 10 ** rng.uniform(-3, 4)
            src, area = build(rng, j % 2)
            flux = mu / T / area
            src.flux = poisson_process((flux / u.s / u.cm ** 2).to([1 / u.s / u.cm ** 2, 1 / u.ks / u.m ** 2][j % 2]))
            for _ in range(runs):
                emit_run(s, src, T, exposure(rng, T), {'kind': 'poisson', 'flux': num(flux), 'area': num(area)},
                         {'kind': 'const', 'v': num(1)}, {'kind': 'random'})
            s.emit('sum', mu=num(mu * runs))


@CHECK.scenario(quick=40, thorough=400, trace='SourcesTrace')
def flux_function(rec, rng, n):
    for j in range(n):
        with rec.session('flux given by a function') as s:
            en, es = energy_spec(rng, [0, 4][j % 2])
            pol, ps = pol_spec(rng, [1, 3][(j // 2) % 2])
            T = 10 ** rng.uniform(-3, 4)
            src, area = build(rng, j % 2, energy=en, polarization=pol)
            seen = {'kind': 'func', 'area': num(area)}
            unit = [u.s, u.ks, u.h][j % 3]
            out = np.sort(rng.uniform(0, T, int(rng.integers(0, 20))))

            def f(Tq, a):
                seen['T'] = num(Tq.to_value(u.s))
                seen['gotarea'] = num(a.to_value(u.cm ** 2))
                seen['ret'] = vec(out)
                return (out * u.s).to(unit)
            src.flux = f
            emit_run(s, src, T, exposure(rng, T), seen, es, ps)


@CHECK.scenario(quick=30, thorough=200, trace='SourcesTrace')
def again(rec, rng, n):
    """the same source object used repeatedly, for different times"""
    for j in range(n):
        with rec.session('the same source again') as s:
            en, es = energy_spec(rng, [0, 1, 2, 4][j % 4])
            pol, ps = pol_spec(rng, [1, 3][(j // 2) % 2])
            src, area = build(rng, j % 2, energy=en, polarization=pol)
            for _ in range(4):
                N = rng.uniform(1, 15)
                T = 10 ** rng.uniform(-3, 2)
                src.flux = N / T / area / u.s / u.cm ** 2
                emit_run(s, src, T, exposure(rng, T), {'kind': 'const', 'flux': num(N / T / area), 'area': num(area)},
                         es, ps)
                if rng.random() < 0.5:
                    src.energy, es = energy_spec(rng, [0, 1, 2, 4][int(rng.integers(4))])


@CHECK.scenario(quick=40, thorough=200, trace='SourcesTrace')
def refused(rec, rng, n):
    T = 5. * u.s
    bad = [
        ('flux that is not a quantity', lambda: Source(flux=5.)(T)),
        ('flux that is an array', lambda: Source(flux=[1, 2] / u.s / u.cm ** 2)(T)),
        ('flux of wrong unit', lambda: Source(flux=3 / u.m)(T)),
        ('flux per time although there is an area', lambda: Source(flux=1 / u.s)(T)),
        ('flux per area although there is none', lambda: Source(flux=1 / u.s / u.cm ** 2, geomarea=None)(T)),
        ('exposure without unit', lambda: Source()(5.)),
        ('exposure of wrong unit', lambda: Source()(5. * u.m)),
        ('energy without unit', lambda: Source(energy=3.)(T)),
        ('energy array', lambda: Source(energy=np.ones(5) * u.keV)(T)),
        ('energy of wrong unit', lambda: Source(energy=3. * u.s)(T)),
        ('energy function of wrong length', lambda: Source(energy=lambda t: np.ones(len(t) + 1) * u.keV)(T)),
        ('energy function of shorter length', lambda: Source(energy=lambda t: np.ones(1) * u.keV)(T)),
        ('energy function of wrong unit', lambda: Source(energy=lambda t: np.ones(len(t)) * u.s)(T)),
        ('energy function without unit', lambda: Source(energy=lambda t: np.ones(len(t)))(T)),
        ('spectrum of wrong unit', lambda: Source(energy=QTable(
            {'energy': [1., 2] * u.s, 'fluxdensity': [1., 2] / u.s / u.cm ** 2 / u.keV}))(T)),
        ('spectrum with density of wrong unit', lambda: Source(energy=QTable(
            {'energy': [1., 2] * u.keV, 'fluxdensity': [1., 2] / u.s / u.cm ** 2}))(T)),
        ('spectrum with descending energies', lambda: Source(energy=QTable(
            {'energy': [2., 1] * u.keV, 'fluxdensity': [1., 2] / u.s / u.cm ** 2 / u.keV}))(T)),
        ('spectrum with negative density', lambda: Source(energy=QTable(
            {'energy': [1., 2, 3] * u.keV, 'fluxdensity': [1., 2, -1] / u.s / u.cm ** 2 / u.keV}))(T)),
        ('polarization without unit', lambda: Source(polarization=1.)(T)),
        ('polarization array', lambda: Source(polarization=[1., 2] * u.deg)(T)),
        ('polarization of wrong unit', lambda: Source(polarization=1. * u.m)(T)),
        ('polarization function of wrong length',
         lambda: Source(polarization=lambda t, e: np.ones(len(t) + 1) * u.deg)(T)),
        ('polarization function without unit', lambda: Source(polarization=lambda t, e: np.ones(len(t)))(T)),
        ('polarization table of wrong unit', lambda: Source(polarization=QTable(
            {'angle': [1., 2] * u.s, 'probabilitydensity': [1., 2] / u.rad}))(T)),
        ('rate of a random process as array', lambda: poisson_process([1., 2] / u.s / u.cm ** 2)),
        ('rate of a random process of wrong unit', lambda: poisson_process(1. / u.s)),
        ('flux function without unit', lambda: Source(flux=lambda t, a: np.arange(3.))(T)),
        ('flux function of wrong unit', lambda: Source(flux=lambda t, a: np.arange(3.) * u.m)(T)),
        ('position that is an array', lambda: PointSource(coords=SkyCoord([1., 2], [3., 4], unit='deg'))),
    ]
    for what, f in bad:
        with rec.session(what) as s:
            with s.expect_error(what):
                with limit(20):
                    f()
