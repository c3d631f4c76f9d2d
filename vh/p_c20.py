"""C20: compressed redistribution matrices."""
import os
import tempfile

import numpy as np
import astropy.units as u
from astropy.table import Table, QTable

from . import tlc
from .core import Check, some
from .num import num, vec

from marxs.reduction.ogip import RMF, ColOrKeyTable
from marxs.reduction.lsfparm import make_rmf

CHECK = Check('C20', assumptions=['line-spread tables are (bi-)linear in wavelength and extraction width, so that every '
                                  'interpolation scheme gives the same parameters',
                                  'entries within 1e-8 of the threshold may be kept or cut'])
CHECK.mc('ResponsesMC')
HC = (1 * u.keV).to_value(u.Angstrom, equivalencies=u.spectral())


def pattern(rng, n):
    """rows with runs, gaps, entries at both ends, entries at the threshold, or nothing at all"""
    how = int(rng.integers(6))
    if how == 0:
        k = np.zeros(n, bool)
    elif how == 1:
        k = np.ones(n, bool)
    elif how == 2:
        k = np.arange(n) % 2 == rng.integers(2)
    elif how == 3:
        k = np.zeros(n, bool)
        a = int(rng.integers(n))
        k[a:int(rng.integers(a, n)) + 1] = True
    else:
        k = rng.random(n) < rng.choice([.2, .5, .8])
    return np.where(k, rng.integers(1, 4000, n) / 4096., 0.)


@CHECK.scenario(quick=300, thorough=20000, trace='ResponsesTrace', chunks=4)
def rows(rec, rng, n):
    for j in range(n):
        with rec.session('one row') as s:
            m = int(rng.integers(1, 13))
            arr = pattern(rng, m)
            thr = float(rng.choice([0., 1e-6, 0.25, 0.5]))
            some = rng.random(m) < 0.15
            arr[some] = rng.choice([thr, thr / 2, -0.125], some.sum())
            if j % 3 == 0:      # e.g. already multiplied with the effective area
                arr[rng.random(m) < 0.4] *= 1024.
            first = int(rng.choice([0, 1, 2, 7, 40000]))
            if j % 4:
                out = RMF.arr_to_rmf_matrix_row(arr, first, threshold=thr)
            else:
                thr = 1e-6
                out = RMF.arr_to_rmf_matrix_row(arr, first)
            s.emit('row', arr=vec(arr), thr=num(thr), first=first, n=int(out[0]), f=[int(x) for x in out[1]],
                   c=[int(x) for x in out[2]], m=vec(out[3]))


HEAD = {'TELESCOP': 'abc', 'INSTRUME': 'xyz', 'FILTER': 'none'}


def stored(r):
    z = []
    for i in range(len(r.matrix)):
        def at(c):
            return np.atleast_1d(np.asarray(r.matrix[c] if c in r.matrix.meta else r.matrix[c][i]))
        z.append({'n': int(np.ravel(at('N_GRP'))[0]), 'f': [int(x) for x in at('F_CHAN')], 'c': [int(x) for x in at('N_CHAN')],
                  'm': vec(np.asarray(at('MATRIX'), dtype=float))})
    return z


def emit_store(s, r, fixed, single):
    tl = [int(t.meta[f'TLMIN{t.colnames.index(c) + 1}']) for t, c in ((r.matrix, 'F_CHAN'), (r.ebounds, 'CHANNEL'))
          if c in t.colnames and f'TLMIN{t.colnames.index(c) + 1}' in t.meta]
    s.emit('store', z=stored(r), fixed=fixed, single=single, det=[int(t.meta['DETCHANS']) for t in (r.matrix, r.ebounds)], tl=tl)


def look(s, rng, r, elo, ehi, single):
    for _ in range(3):
        i = int(rng.integers(len(elo)))
        en = elo[i] + (ehi[i] - elo[i]) * rng.choice([0.01, 0.37, 0.9])
        exact = rng.random() < 0.2
        if exact:
            en = elo[i]
        en = en * u.keV
        if not exact:
            en = [en, en.to(u.eV), en.to(u.Angstrom, equivalencies=u.spectral()), en.to(u.nm, equivalencies=u.spectral())][
                int(rng.integers(4))]
        how = int(rng.integers(3))
        lo, hi, out = [r.rmf, r.full_rmf, r.rmf_angstrom][how](en)
        if how == 2:
            s.emit('wave', row=i + 1, lo=vec(lo.to_value(u.Angstrom)), hi=vec(hi.to_value(u.Angstrom)), out=vec(np.asarray(out, float)),
                   single=single, hc=num(HC))
        else:
            s.emit('expand', row=i + 1, part=how == 0, lo=vec(lo.to_value(u.keV)), hi=vec(hi.to_value(u.keV)),
                   out=vec(np.asarray(out, float)), single=single)


def matrix(rng, s, trim, told=None):
    nch = int(rng.integers(1, 9))
    nrow = int(rng.integers(1, 6))
    first = int(rng.choice([0, 1, 1, 2, 100, 33000]))
    thr = float(rng.choice([1e-6, 0.25]))
    full = [pattern(rng, nch) for _ in range(nrow)]
    if told:
        thr, first, full = 0.75, told['first'], [np.array(f) * 0.5 for f in told['full']]
        nrow, nch = len(full), len(full[0])
    if not trim and not any((f > thr).any() for f in full):
        full[0][int(rng.integers(nch))] = 0.5
    elo = np.cumsum(rng.integers(1, 5, nrow)) * 0.25
    ehi = np.append(elo[1:], elo[-1] + 0.5)
    ce = np.cumsum(rng.integers(1, 5, nch + 1)) * 0.125
    comp = [RMF.arr_to_rmf_matrix_row(f, first, threshold=thr) for f in full]
    cls = ColOrKeyTable if rng.random() < 0.5 else QTable
    mat = Table(names=['ENERG_LO', 'ENERG_HI', 'N_GRP', 'F_CHAN', 'N_CHAN', 'MATRIX'],
                data=[np.zeros(nrow, dtype=d) for d in (float, float, np.int16, object, object, object)],
                units=[u.keV, u.keV, None, None, None, None])
    mat['ENERG_LO'], mat['ENERG_HI'] = elo, ehi
    mat['ENERG_LO'].unit = mat['ENERG_HI'].unit = u.keV
    for i, c in enumerate(comp):
        for name, v in zip(['N_GRP', 'F_CHAN', 'N_CHAN', 'MATRIX'], c):
            mat[name][i] = v
    eb = cls({'CHANNEL': np.arange(nch) + first, 'E_MIN': ce[:-1] * u.keV, 'E_MAX': ce[1:] * u.keV})
    for t in (mat, eb):
        t.meta.update(HEAD)
    s.emit('build', rows=[vec(f) for f in full], thr=num(thr), first=first, nch=nch, clo=vec(ce[:-1]), chi=vec(ce[1:]))
    mat.meta['TLMIN4'] = first
    eb.meta['TLMIN1'] = first
    kw = {'CHANTYPE': str(rng.choice(['PHA', 'PI']))}
    if rng.random() < 0.5:
        kw['HDUCLAS3'] = 'REDIST'
    return RMF(mat, eb, **kw), elo, ehi, first


@CHECK.scenario(quick=80, thorough=3000, trace='ResponsesTrace', chunks=4)
def matrices(rec, rng, n):
    with tempfile.TemporaryDirectory() as d:
        for j in range(n):
            with rec.session('one channel or row' if j % 10 == 0 else 'matrix') as s:
                r, elo, ehi, first = matrix(rng, s, trim=bool(j % 2))
                emit_store(s, r, False, False)
                look(s, rng, r, elo, ehi, False)
                single = False
                for op in rng.choice(['fixed', 'trip', 'trip2', 'again'], size=int(rng.integers(1, 4))):
                    if op == 'fixed' and not single:
                        r.variable_length_to_fixed_length()
                        single = True
                    else:
                        p = os.path.join(d, f'm{j}.rmf')
                        if op == 'again':
                            r.write(p, overwrite=True)
                        else:
                            r.write(p, overwrite=True, TLMIN=first)
                        single = True
                        if op != 'again':
                            r = RMF.read(p)
                    emit_store(s, r, True, True)
                    look(s, rng, r, elo, ehi, single)
                with s.expect_error('energy above all rows'):
                    r.rmf(ehi[-1] * 2 * u.keV)
                with s.expect_error('energy below all rows'):
                    r.full_rmf(elo[0] / 2 * u.keV)


@CHECK.scenario(quick=60, thorough=2500, trace='ResponsesTrace', chunks=2)
def told_matrices(rec, rng, n):
    """matrices of the model, through all forms of storage"""
    with tempfile.TemporaryDirectory() as d:
        for b in some(rng, tlc.behaviours('ResponsesGen'), n):
            with rec.session('matrix told by the model') as s:
                r, elo, ehi, first = matrix(rng, s, True, b)
                emit_store(s, r, False, False)
                look(s, rng, r, elo, ehi, False)
                if rng.random() < 0.5:
                    r.variable_length_to_fixed_length()
                    emit_store(s, r, True, True)
                    look(s, rng, r, elo, ehi, True)
                p = os.path.join(d, 'm.rmf')
                r.write(p, overwrite=True, TLMIN=first)
                r = RMF.read(p)
                emit_store(s, r, True, True)
                look(s, rng, r, elo, ehi, True)


UNITS = {'keV': ('energy', 1.), 'eV': ('energy', 1e-3), 'Angstrom': ('wave', 1.), 'nm': ('wave', 10.)}


@CHECK.scenario(quick=60, thorough=2000, trace='ResponsesTrace')
def bounds(rec, rng, n):
    for j in range(n):
        with rec.session('channel bounds') as s:
            name = list(UNITS)[j % 4]
            kind, scale = UNITS[name]
            x = np.cumsum(rng.uniform(0.01, 1, int(rng.integers(2, 12)))) * 10 ** rng.uniform(-1, 2)
            if rng.random() < 0.5:
                x = x[::-1]
            eb = RMF.ebounds_from_edges(x * u.Unit(name))
            ch = eb['CHANNEL']
            s.emit('ebounds', x=vec(x), kind=kind, scale=num(scale), hc=num(HC), ch=[int(c) for c in np.broadcast_to(ch, len(eb))],
                   lo=vec(eb['E_MIN'].to_value(u.keV)), hi=vec(eb['E_MAX'].to_value(u.keV)))


def grid_edges(rng):
    lo = rng.uniform(5, 20)
    step = rng.uniform(0.5, 1.5, int(rng.integers(4, 8))) * 10 ** rng.uniform(-2, -0.5)
    return lo + np.cumsum(step)


def full(r, i):
    lo, hi, v = r.full_rmf((r.matrix['ENERG_LO'].quantity if hasattr(r.matrix['ENERG_LO'], 'quantity') else r.matrix['ENERG_LO'])[i])
    return v


def emit_lsf(s, r, edges, ws, ls, comp, ee, w, thr, same, tol=1e-7):
    def col(t, c):
        q = t[c]
        q = q.quantity if hasattr(q, 'quantity') else q
        return np.atleast_1d(q.to_value(u.keV))
    s.emit('lsf', rows=[vec(full(r, i)) for i in range(len(r.matrix))], edges=vec(edges), ws=vec(ws), ls=vec(ls), w=num(w),
           comp=[{'lor': bool(c['lor']), 'a': [vec(x) for x in c['a']], 's': [vec(x) for x in c['s']], 'p': [vec(x) for x in c['p']]}
                 for c in comp],
           ee=[vec(x) for x in ee], thr=num(thr), tol=num(tol), same=bool(same), hc=num(HC), det=[int(t.meta['DETCHANS']) for t in (r.matrix, r.ebounds)],
           elo=vec(col(r.matrix, 'ENERG_LO')), ehi=vec(col(r.matrix, 'ENERG_HI')), clo=vec(col(r.ebounds, 'E_MIN')), chi=vec(col(r.ebounds, 'E_MAX')))


@CHECK.scenario(quick=12, thorough=240, trace='ResponsesTrace', chunks=4)
def gaussian(rec, rng, n):
    for j in range(n):
        with rec.session('matrix for a Gaussian response') as s:
            edges = grid_edges(rng)
            typ = np.diff(edges).mean()
            lam = np.linspace(edges[0] - 1e-3 - rng.uniform(0, 2), edges[-1] + 1e-3 + rng.uniform(0, 2), int(rng.integers(4, 7)))
            sig = typ * rng.uniform(0.3, 2) * (1 + rng.uniform(-.3, .3) * (lam - edges[0]) / (edges[-1] - edges[0]) * 0.2)
            kind = j % 4
            if kind == 0:
                tab = QTable({'wave': lam * u.Angstrom, 'sigma_wave': sig * u.Angstrom})
            elif kind == 1:
                tab = QTable({'wave': (lam * u.Angstrom).to(u.nm), 'sigma_wave': (sig * 1e3) * u.Unit('mAngstrom')})
            else:
                en = (HC / lam) * u.keV
                tab = QTable({'energy': en, 'sigma_energy': (en * sig / lam).to(u.eV if kind == 2 else u.keV)})
            if rng.random() < 0.4:
                tab = tab[rng.permutation(len(tab))]
            if rng.random() < 0.3:
                tab = Table(tab)
            before = tab.copy()
            if j % 3 == 0:
                be = edges * u.Angstrom
            elif j % 3 == 1:
                be = (HC / edges) * u.keV
            else:
                be = (HC / edges)[::-1] * 1e3 * u.eV
            thr = float(rng.choice([1e-6, 1e-3, 1e-2]))
            kw = {} if j % 2 else {'headerkw': {'SATELLIT': 'a', 'TELESCOP': 'b', 'INSTRUME': 'c', 'FILTER': 'd'}}
            r = RMF.from_Gauss_sigma(be, tab, threshold=thr, **kw)
            same = list(tab.colnames) == list(before.colnames) and all(np.all(tab[c] == before[c]) for c in tab.colnames)
            emit_lsf(s, r, edges, [1.], lam, [{'lor': False, 'a': [np.ones(len(lam))], 's': [sig], 'p': [lam]}],
                     [np.ones(len(lam))], 1., thr, same)
            if j % 4 == 3:
                with tempfile.TemporaryDirectory() as d:
                    p = os.path.join(d, 'g.rmf')
                    r.write(p)
                    emit_lsf(s, RMF.read(p), edges, [1.], lam, [{'lor': False, 'a': [np.ones(len(lam))], 's': [sig], 'p': [lam]}],
                             [np.ones(len(lam))], 1., thr, same, tol=1e-6)


@CHECK.scenario(quick=12, thorough=240, trace='ResponsesTrace', chunks=4)
def line_spread(rec, rng, n):
    for j in range(n):
        with rec.session('matrix for a line-spread function') as s:
            edges = grid_edges(rng)
            typ = np.diff(edges).mean()
            lam = np.linspace(edges[0] - rng.uniform(0.1, 2), edges[-1] + rng.uniform(0.1, 2), int(rng.integers(4, 7)))
            nw = int(rng.integers(1, 4))
            ws = np.cumsum(rng.uniform(0.1, 1, nw))

            def lin(v, rel, width=True):
                y = v * (1 + rel * rng.uniform(-1, 1) * (lam - lam[0]) / (lam[-1] - lam[0]))
                return np.array([y * (1 + (rel * rng.uniform(-1, 1) if width else 0)) for w in ws]) if j % 2 else \
                    np.array([y * (1 + 0.5 * rel * (w - ws[0])) for w in ws])
            comp = []
            names = []
            shape = int(rng.integers(1, 4))
            for k in range(shape):
                lor = bool(rng.random() < 0.4)
                off, slope = rng.uniform(-1, 1, 2) * typ
                pos = np.array([lam + off + slope * (w - ws[0]) for w in ws])
                comp.append({'lor': lor, 'a': lin(rng.uniform(0.1, 2), 0.3), 's': lin(typ * rng.uniform(0.3, 2), 0.3), 'p': pos})
                names.append(('LORENTZ' if lor else 'GAUSS') + f'{k + 1}_PARMS')
            ee = lin(rng.uniform(0.3, 1), 0.1)
            cols = {'NUM_WIDTHS': [nw], 'WIDTHS': [ws], 'NUM_LAMBDAS': [len(lam)], 'EE_FRACS': [ee], 'LAMBDAS': [lam]}
            order = rng.permutation(shape)
            for k in order:
                c = comp[k]
                cols[names[k]] = [np.stack([c['a'], c['s'], c['p']], axis=-1)]
            tab = Table(cols)
            tab.meta.update(HEAD)
            before = tab.copy()
            if nw == 1:
                w = float(rng.choice([ws[0], 0.3]))
            else:
                w = float(rng.uniform(ws[0], ws[-1])) if rng.random() < 0.7 else float(ws[int(rng.integers(nw))])
            if nw > 2 and j % 2:   # linear between the tabulated widths
                kw = {'kw_interp': {'kind': 'linear'}}
            elif j % 3 == 0:
                kw = {'kw_interp': {'kind': 'linear'}}
            else:
                kw = {}
            thr = float(rng.choice([1e-6, 1e-3]))
            be = [edges * u.Angstrom, edges[::-1] * u.Angstrom][j % 2]
            r = make_rmf(tab[0], be, w * u.deg, threshold=thr, **kw)
            same = all(np.all(np.asarray(tab[c]) == np.asarray(before[c])) for c in tab.colnames)
            emit_lsf(s, r, edges, ws, lam, comp, ee, w, thr, same)
