"""C21: order-sorting corrections."""
import os
import re
import tempfile

import numpy as np
import astropy.units as u
from astropy.table import QTable, Table
from scipy.stats import norm

from . import tlc
from .core import Check, some
from .num import num, vec

from marxs.optics.detector import CCDRedistNormal
from marxs.reduction.ogip import ARF
from marxs.reduction.osip import FixedWidthOSIP, FixedFractionOSIP, FractionalDistanceOSIP, OSIPBase

CHECK = Check('C21', assumptions=['a bin whose recorded factor is below 1e-6 cannot be undone and is not judged afterwards'])
CHECK.mc('SortingMC')


class RangeOnly(OSIPBase):
    """user-defined sorting that gives the range only"""
    def __init__(self, hw, **kw):
        self.hw = hw
        super().__init__(**kw)

    @property
    def osip_description(self):
        return 'range' + str(self.hw)

    def osip_range(self, chan_mid, order):
        E = chan_mid.to(u.keV, equivalencies=u.spectral())
        return np.stack([E - self.hw, E + self.hw])


def redist(rng):
    n = int(rng.integers(2, 5))
    en = np.cumsum(rng.uniform(0.2, 1.5, n)) - 0.2
    w = rng.uniform(20, 90, n)
    fwhm = rng.random() < 0.5
    name = 'FWHM' if fwhm else 'sigma'
    tab = QTable({'energy': en * u.keV, name: w * u.eV if rng.random() < .5 else w * 1e-3 * u.keV})
    return CCDRedistNormal(tab_width=tab), {'en': vec(en * 1000), 'w': vec(w), 'fwhm': bool(fwhm)}


def window(rng, **kw):
    red, tab = redist(rng)
    how = int(rng.integers(5))
    if how == 0 or how == 4:
        v = float(rng.choice([0., 20., 40., 65.5, 300., 1e5]))
        q = [v * u.eV, v * 1e-3 * u.keV][int(rng.integers(2))]
        o = (FixedWidthOSIP if how == 0 else RangeOnly)(q, ccd_redist=red, **kw)
        d = dict(kind='width', val=num(v), z=num(0.), descr=str(q) if how == 0 else 'range' + str(q))
    elif how == 1:
        v = float(rng.choice([0.3, 0.7, 0.9, 0.999, 1.]))
        o = FixedFractionOSIP(v, ccd_redist=red, **kw)
        d = dict(kind='fraction', val=num(v), z=num(norm.ppf(0.5 + v / 2)), descr='OSIPFrac' + str(v))
    else:
        v = float(rng.choice([0.4, 0.7, 1.]))
        o = FractionalDistanceOSIP(v, ccd_redist=red, **kw)
        d = dict(kind='distance', val=num(v), z=num(0.), descr='OSIPDist' + str(v))
    d.update(tab)
    return o, d


def order(rng, zero=False):
    return int(rng.choice([-1, 1]) * rng.integers(1, 9)) if not (zero and rng.random() < 0.1) else 0


@CHECK.scenario(quick=150, thorough=4000, trace='SortingTrace', chunks=4)
def windows(rec, rng, n):
    for j in range(n):
        with rec.session('window and factor') as s:
            o, d = window(rng)
            E = rng.uniform(150, 3000, int(rng.integers(1, 5)))
            q = [E * u.eV, E * 1e-3 * u.keV, (E * u.eV).to(u.Angstrom, equivalencies=u.spectral()),
                 (E * u.eV).to(u.nm, equivalencies=u.spectral())][j % 4]
            k = order(rng)
            tab = o.osip_tab(q, k).to_value(u.eV)
            rg = o.osip_range(q, k).to_value(u.eV, equivalencies=u.spectral())
            s.emit('window', win=d, E=vec(E), order=k, tlo=vec(tab[0]), thi=vec(tab[1]), lo=vec(rg[0]), hi=vec(rg[1]))
            for _ in range(3):
                m = k + int(rng.choice([-1, 0, 0, 1, 1, 2, -2 * k])) if rng.random() < 0.9 else order(rng)
                f = o.osip_factor(q, k, m)
                s.emit('factor', win=d, E=vec(E), order=k, true=m, fac=vec(np.broadcast_to(u.Quantity(f).to_value(u.one), E.shape)))


def make_arf(rng, m, n=None, const=False):
    n = n or int(rng.integers(2, 5))
    e = 0.3 + np.cumsum(rng.uniform(0.05, 0.4, n + 1))
    area = np.round(rng.uniform(0.5, 30, n), 4)
    if const:
        area[:] = area[0]
    arf = ARF({'ENERG_LO': e[:-1] * u.keV, 'ENERG_HI': e[1:] * u.keV, 'SPECRESP': area * u.cm**2})
    arf.meta.update({'TELESCOP': 'abc', 'INSTRUME': 'xyz', 'FILTER': 'none', 'ORDER': m})
    return arf, e, area


def content(path):
    t = Table.read(path, format='fits')
    n = len(t)

    def col(c):
        return vec(np.broadcast_to(np.asarray(t[c] if c in t.colnames else t.meta[c], float), n))
    m = t.meta
    return {'area': col('SPECRESP'), 'fac': col('OSIPFAC'), 'ccd': int(m['CCDORDER']), 'true': int(m['TRUEORD']), 'order': int(m['ORDER']),
            'instr': str(m['INSTRUME']), 'osip': str(m['OSIP'])}


def bytes_of(paths):
    return {p: open(p, 'rb').read() for p in paths}


def ls(d):
    return sorted(os.path.join(d, f) for f in os.listdir(d)) if os.path.isdir(d) else []


@CHECK.scenario(quick=40, thorough=900, trace='SortingTrace', chunks=4)
def histories(rec, rng, n):
    for j in range(n):
        with rec.session('history of applications') as s, tempfile.TemporaryDirectory() as d:
            files = []
            for k in range(int(rng.integers(1, 3))):
                m = order(rng)
                arf, e, area = make_arf(rng, m, const=bool(rng.random() < 0.2))
                p = os.path.join(d, f'in{k}.arf')
                arf.write(p)
                s.emit('arf', id=p[len(d):], area=vec(area), elo=vec(e[:-1]), ehi=vec(e[1:]), m=m)
                files.append((p, m))
            for step in range(int(rng.integers(2, 6))):
                o, w = window(rng)
                p, m = files[int(rng.integers(len(files)))]
                k = m + int(rng.choice([-1, 0, 0, 1])) if rng.random() < 0.9 else order(rng)
                if k == 0:
                    k = m
                outdir = os.path.join(d, f'out{step}', 'new') if rng.random() < 0.7 else d
                root = str(rng.choice(['', 'pre']))
                before, content0 = set(ls(outdir)), bytes_of([p])
                name = os.path.join(outdir, f'{root}_ccdord_{k}_true_{m}.arf')
                over = name in before
                o.apply_osip(p, outdir, k, outroot=root, overwrite=over)
                new = sorted(set(ls(outdir)) - before) or [name]
                s.emit('apply', win=w, order=k, id=p[len(d):], to=new[0][len(d):], name=os.path.basename(new[0]), root=root, c=content(new[0]),
                       same=bool(p == name or bytes_of([p]) == content0), nnew=len(set(ls(outdir)) - before) + over)
                files.append((new[0], m))
                if rng.random() < 0.3:
                    o2, _ = window(rng)
                    have = bytes_of(new)
                    raised = False
                    try:
                        o2.apply_osip(p, outdir, k, outroot=root)
                    except OSError:
                        raised = True
                    s.emit('refuse', raised=raised, same=bool(bytes_of(new) == have))


@CHECK.scenario(quick=25, thorough=630, trace='SortingTrace', chunks=2)
def told_histories(rec, rng, n):
    """histories of the model: file by file, window by window"""
    H = tlc.behaviours('SortingGen')
    H = some(rng, H, n) + some(rng, tlc.behaviours('SortingGen', 'SortingGenDeep.cfg', num=max(1, n // 5), depth=8,
                                                  seed=int(rng.integers(10**6))), max(1, n // 5))
    for b in H:
        with rec.session('history told by the model') as s, tempfile.TemporaryDirectory() as d:
            m = order(rng)
            arf, e, area = make_arf(rng, m)
            p = os.path.join(d, 'in.arf')
            arf.write(p)
            s.emit('arf', id=p[len(d):], area=vec(area), elo=vec(e[:-1]), ehi=vec(e[1:]), m=m)
            files, win = [p], {}
            for step, (i, q) in enumerate(b):
                o, w = win.setdefault(q, window(rng))
                p = files[i - 1]
                outdir = os.path.join(d, f'out{step}')
                content0 = bytes_of([p])
                o.apply_osip(p, outdir, m)
                new = ls(outdir)
                s.emit('apply', win=w, order=m, id=p[len(d):], to=new[0][len(d):], name=os.path.basename(new[0]), root='', c=content(new[0]),
                       same=bool(bytes_of([p]) == content0), nnew=len(new))
                files.append(new[0])


def custom_name(filetype='fits', **kw):
    if 'CCDORDER' in kw:
        return f'{kw["CHAN"]}_c_ccdord_{kw["CCDORDER"]}_true_{kw["TRUEORD"]}.{filetype}'
    return f'{kw["CHAN"]}_o{kw["ORDER"]}.{filetype}'


@CHECK.scenario(quick=5, thorough=100, trace='SortingTrace', chunks=5)
def bulk(rec, rng, n):
    for j in range(n):
        with rec.session('bulk application') as s, tempfile.TemporaryDirectory() as d:
            offs = [[-1, 0, 1], [0], [0, 2, -2], [1, -1], [-2, -1, 0, 1, 2]][int(rng.integers(5))]
            kw = dict(offset_orders=offs)
            custom = bool(rng.random() < 0.3)
            if custom:
                kw['filename_from_meta'] = custom_name
            o, w = window(rng, **kw)
            inp, out = os.path.join(d, 'in'), os.path.join(d, 'res')
            os.makedirs(inp)
            side = int(rng.choice([-1, 1]))
            inroot = str(rng.choice(['', 'base']))
            for m in range(-5, 6):
                if m and rng.random() < 0.75:
                    arf, e, area = make_arf(rng, m)
                    arf.meta['CHAN'] = 'A1'
                    nm = custom_name('arf', ORDER=m, CHAN='A1') if custom else f'_{m:+}.arf'
                    arf.write(os.path.join(inp, inroot + nm))
                    s.emit('arf', id=nm, area=vec(area), elo=vec(e[:-1]), ehi=vec(e[1:]), m=m)
            orders = [int(x) for x in side * (1 + rng.permutation(5)[:int(rng.integers(1, 4))])]
            if rng.random() < 0.3:
                orders.append(-side)
            before = bytes_of(ls(inp))
            root = str(rng.choice(['', 'fin']))
            o.apply_osip_all(inp, out, orders if rng.random() < .5 else np.array(orders), inroot=inroot, outroot=root,
                             filename_from_meta_kwargs={'CHAN': 'A1'} if custom else {})
            found = []
            for p in ls(out):
                if p.endswith('.arf'):
                    g = re.match((root + ('A1_c' if custom else '')) + r'_ccdord_([-+0-9]+)_true_([-+0-9]+)\.arf$', os.path.basename(p))
                    found.append({'o': int(g[1]) if g else 99, 'm': int(g[2]) if g else 99, 'c': content(p)})
            s.emit('bulk', win=w, orders=orders, offsets=offs, found=found, same=bool(bytes_of(ls(inp)) == before))
            if found:
                have = bytes_of(ls(out))
                raised = False
                try:
                    o.apply_osip_all(inp, out, orders, inroot=inroot, outroot=root, filename_from_meta_kwargs={'CHAN': 'A1'} if custom else {})
                except OSError:
                    raised = True
                s.emit('refuse', raised=raised, same=bool(all(bytes_of(ls(out))[p] == have[p] for p in have if p.endswith('.arf'))))
