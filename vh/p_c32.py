"""C32: responses of an instrument with several optical axes."""
import contextlib
import os
import tempfile
import warnings

import numpy as np
import astropy.units as u
from astropy.table import Table, QTable
from astropy.utils.data import get_pkg_data_filename
from transforms3d.axangles import axangle2mat

from .core import Check
from .num import num, vec, mat
from . import rand

from marxs.optics import OrderSelector
from marxs.optics.detector import CCDRedistNormal
from marxs.reduction import osip, ogip
from marxs.missions.arcus import arcus, arfrmf, analyze_grid, ralfgrating, load_csv
from marxs.missions.arcus.utils import id_num_offset
from marxs.missions.mitsnl import catgrating

CHECK = Check('C32', assumptions=[
    'calibration tables are made up for the check (the package has none): ascending energies or wavelengths in any unit, any order of the rows',
    'rays within 1e-8 (in sine) of the end of a chip are not judged',
    'interpolated mirror areas are judged at the tabulated wavelengths, and everywhere for areas that are quadratic in wavelength'])
CHECK.mc('AreasMC')
CHECK.mc('AreasMC', 'AreasMC_big.cfg', quick=False)

HC = 12.39841984332
AXES = list(arcus.defaultconf['pos_opt_ax'])
REDIST = QTable.read(get_pkg_data_filename('data/ccd_redist_normal.ecsv', 'marxs.optics.tests'))


@contextlib.contextmanager
def caldb():
    """an empty calibration database"""
    cfg = load_csv.config
    with tempfile.TemporaryDirectory() as d:
        for x in ('gratings', 'filters', 'detectors', 'aeff'):
            os.mkdir(os.path.join(d, x))
        had = cfg.has_section('data')
        old = dict(cfg['data']) if had else None
        if not had:
            cfg.add_section('data')
        cfg['data']['caldb_inputdata'] = d
        try:
            yield d
        finally:
            cfg.remove_section('data')
            if had:
                cfg.add_section('data')
                cfg['data'].update(old)


def filters(rng, d):
    """transmission of the filters; returns energies (keV) and values, ascending"""
    out = []
    for i, (a, b) in enumerate(arcus.FiltersAndQE.filterlist):
        k = int(rng.integers(4, 8))
        e = np.sort(np.r_[rng.uniform(0.1, 0.3), rng.uniform(1.2, 2.5), rng.uniform(0.3, 1.2, k)])
        y = rng.uniform(0.2, 1, len(e))
        unit = [u.keV, u.eV, u.Angstrom][int(rng.integers(3))]
        x = (e * u.keV).to(unit, equivalencies=u.spectral())
        o = rng.permutation(len(e))
        t = QTable({'energy': x[o], 'transmission': y[o]})
        t.write(os.path.join(d, a, b + '.csv'), format='ascii.ecsv')
        out.append({'x': vec(e), 'y': vec(y)})
    return out


def area_table(rng, quad):
    """mirror and grating area per order"""
    w = np.sort(np.r_[rng.uniform(5, 12), rng.uniform(60, 80), rng.uniform(12, 60, int(rng.integers(4, 20)))])
    orders = sorted(rng.choice(np.arange(-7, 4), int(rng.integers(2, 5)), replace=False))
    t = QTable({'wave': w * u.Angstrom})
    cs = {}
    for o in orders:
        if quad:
            c = (rng.uniform(-50, 200), rng.uniform(-5, 5), rng.uniform(-.1, .1))
            y = c[0] + c[1] * w + c[2] * w**2
        else:
            c = (0., 0., 0.)
            y = rng.uniform(0, 100, len(w))
        cs[int(o)] = c
        t[str(int(o))] = y * u.cm**2
    if rng.random() < 0.7:
        t = t[rng.permutation(len(t))]
    return t, w, cs


def configuration(rng, j):
    conf = dict(arcus.defaultconf)
    if j % 2:
        conf['phi_det_start'] = rng.uniform(0.02, 0.04)
        conf['blazeang'] = rng.uniform(0, 4)
    if j % 4 in (1, 2):
        conf['pos_opt_ax'] = {k: v + np.r_[rng.uniform(-30, 30, 2), 0, 0] for k, v in conf['pos_opt_ax'].items()}
        conf['f'] = conf['f'] + rng.uniform(-200, 200)
    return conf


def scene(s, rng, d, conf):
    per = rng.uniform(1.9e-4, 2.1e-4, int(rng.integers(1, 5)))
    unit = [u.mm, u.nm, u.um][int(rng.integers(3))]
    t = Table({'period': (per * u.mm).to(unit)})
    t.write(os.path.join(d, 'gratings', 'facets.csv'), format='ascii.ecsv')
    dd = np.cos(np.deg2rad(conf['blazeang'])) * np.mean(per) * 1e7
    chips = [[vec((e.pos4d[:3, 3] + k * e.pos4d[:3, 1])[[0, 2]]) for k in (-1, 1)] for e in arcus.DetCamera(conf).elements]
    s.emit('scene', axes=[{'name': c, 'x0': num(conf['pos_opt_ax'][c][0])} for c in AXES], chips=chips, f=num(conf['f']), d=num(dd),
           ownd=num(arfrmf.OnCCD(conf).effective_grating_period.to(u.Angstrom).value), filters=filters(rng, d))
    return dd


def ogip_first(v):
    return v[0] if isinstance(v, (tuple, list)) else v


def edges(rng, n=None):
    """edges in energy or wavelength, ascending or descending"""
    n = n or int(rng.integers(3, 8))
    wave, up = rng.random() < 0.6, rng.random() < 0.6
    if wave:
        x = np.sort(rng.uniform(4, 70, n)) if rng.random() < 0.6 else np.linspace(20, 22, n)
    else:
        x = np.sort(rng.uniform(0.15, 2.2, n))
    q = x if up else x[::-1]
    q = q * (u.Angstrom if wave else u.keV)
    if rng.random() < 0.3:
        q = q.to(u.nm if wave else u.eV)
    v = q.to(u.Angstrom if wave else u.keV).value
    return q, {'edges': vec(v), 'wave': bool(wave), 'up': bool(up)}


def col(t, name, unit=None):
    x = t[name]
    if unit is not None and getattr(x, 'unit', None) is not None:
        x = u.Quantity(x).to(unit)
    return vec(getattr(x, 'value', x))


def emit_arf(s, a, info, chans, order, quad, c, w):
    h = a.meta['ORDER']
    s.emit('arf', lo=col(a, 'ENERG_LO', u.keV), hi=col(a, 'ENERG_HI', u.keV), spec=col(a, 'SPECRESP', u.cm**2), mir=col(a, 'MIRROR_GRAT', u.cm**2),
           fil=col(a, 'FILTERS_QE'), on=col(a, 'ONCCD'), blo=col(a, 'BIN_LO', u.Angstrom), bhi=col(a, 'BIN_HI', u.Angstrom),
           chans=list(chans), order=int(order), quad=bool(quad), c=vec(c), w0=num(w[0]), w1=num(w[-1]), unit=str(a['SPECRESP'].unit).replace(' ', ''),
           flags=str(a.meta['ARCCHAN']), horder=num(int(h)), **info)


@CHECK.scenario(quick=32, thorough=400, trace='AreasTrace', chunks=4)
def responses(rec, rng, n):
    for j in range(n):
        with rec.session(f'response {j}') as s, caldb() as d, warnings.catch_warnings():
            warnings.simplefilter('ignore')
            conf = configuration(rng, j)
            period = scene(s, rng, d, conf)
            onccd = arfrmf.OnCCD(conf)
            for c in AXES:
                x0 = conf['pos_opt_ax'][c][0]
                e = arcus.DetCamera(conf).elements[int(rng.integers(16))]
                m = int(rng.integers(1, 8))
                sine = []
                for k in (-1, 1):
                    for eps in 10 ** rng.uniform(-6, -2, 2) * [1, -1]:
                        q = e.pos4d[:3, 3] + k * (1 + eps) * e.pos4d[:3, 1]
                        dx = np.sign(x0) * (q[0] - x0)
                        sine.append(dx / np.hypot(dx, conf['f'] - q[2]))
                m *= int(np.sign(sine[0]))
                lam = np.array(sine) * period / m
                lam = np.abs(lam) * u.Angstrom
                s.emit('aim', chan=c, order=m, lam=vec(lam.value), on=[bool(x) for x in onccd(lam if j % 2 else lam.to(u.keV, equivalencies=u.spectral()), m, c)])
            quad = j % 3 != 2
            tab, w, cs = area_table(rng, quad)
            before = tab.copy()
            kw = {}
            if j % 2:
                kw['mirr_grat'] = arfrmf.MirrGrat(tab)
            else:
                tab.write(os.path.join(d, 'aeff', 'mirr_grat.tab'), format='ascii.ecsv')
            if j % 4 == 3:
                kw['trans_filters_qe'] = arfrmf.FiltersQE(kwargs_interp1d={'bounds_error': False, 'fill_value': 0.})
            if j % 4:
                kw['conf'] = conf
            for k in range(2):
                order = int(rng.choice(list(cs)))
                q, info = edges(rng)
                sets = [[c for c in AXES if rng.random() < 0.6] or [AXES[int(rng.integers(4))]], AXES]
                chans = [str(c) for c in rng.permutation(sets[k])]
                use = dict(kw) if k and j % 3 == 0 else dict(kw, channels=chans)
                given = [np.int64(order), order][j % 2]
                a = arfrmf.mkarf(q, given, **use)
                emit_arf(s, a, info, chans, order, quad, cs[order], w)
                if k == 0 or j % 4 == 0:
                    p = os.path.join(d, arfrmf.filename_from_meta('arf', **a.meta))
                    s.emit('name', got=os.path.basename(p), flags=str(a.meta['ARCCHAN']), order=order, ext='arf', mixed=False, ccd=0, true=0)
                    a.write(p, overwrite=True)
                    emit_arf(s, ogip.ARF.read(p), info, chans, order, quad, cs[order], w)
                if k:
                    single = [arfrmf.mkarf(q, order, **dict(kw, channels=[c])) for c in chans]
                    s.emit('sum', all=col(a, 'SPECRESP', u.cm**2), one=[col(x, 'SPECRESP', u.cm**2) for x in single])
            for bad in ('3', 'm'):
                with s.expect_error('response for a channel the instrument does not have'):
                    arfrmf.mkarf(q, order, **dict(kw, channels=[AXES[0], bad]))
            mg = arfrmf.MirrGrat(tab)
            for o in cs:
                x = w[1:-1] if len(w) > 2 else w
                got = u.Quantity(mg((HC / x) * u.keV if j % 2 else x * u.Angstrom, o)).to(u.cm**2).value
                out = u.Quantity(mg(np.r_[w[0] * rng.uniform(.3, .99), w[-1] * rng.uniform(1.01, 3)] * u.Angstrom, o)).to(u.cm**2).value
                tb = before[np.argsort(before['wave'])]
                s.emit('mirror', got=vec(got), want=vec(np.clip(tb[str(o)].value[1:-1], 0, None)), out=vec(out))


@CHECK.scenario(quick=12, thorough=100, trace='AreasTrace', chunks=2)
def names(rec, rng, n):
    for j in range(n):
        with rec.session(f'names {j}') as s, tempfile.TemporaryDirectory() as d:
            for _ in range(6):
                fl = ''.join(rng.choice(['0', '1'], 4)) if rng.random() < 0.7 else '1111'
                o, c, t = (int(x) for x in rng.integers(-12, 4, 3))
                mixed = bool(rng.random() < 0.5)
                ext = str(rng.choice(['fits', 'arf', 'rmf']))
                form = [int, np.int64, np.int16, lambda x: f'{x:+d}'][int(rng.integers(4))]
                kw = {'ARCCHAN': fl, 'ORDER': form(o)}
                if mixed:
                    kw.update(CCDORDER=form(c), TRUEORD=form(t))
                args = {} if ext == 'fits' else {'filetype': ext}
                s.emit('name', got=arfrmf.filename_from_meta(**args, **kw), flags=fl, order=o, ext=ext, mixed=mixed, ccd=c, true=t)
            frac = float(rng.uniform(.2, .9))
            off = [int(x) for x in np.unique(rng.integers(-3, 4, 3))]
            o = osip.FixedFractionOSIP(frac, ccd_redist=CCDRedistNormal(tab_width=REDIST), offset_orders=off, filename_from_meta=arfrmf.filename_from_meta)
            fl = ['all', '1111', '0101', '1000'][j % 4]
            arfrmf.write_readme(o, d, **({} if fl == 'all' else {'ARCCHAN': fl}))
            with open(os.path.join(d, 'README.md')) as f:
                text = f.read()
            got = [x.strip() for x in text.split('\n') if x.strip().endswith('.arf') and ' ' not in x.strip()]
            tags = Table()
            arfrmf.tagversion(tags)
            s.emit('readme', names=got, flags=fl, desc=str(o.osip_description) in text and 'FixedFractionOSIP' in text, offsets=str(off) in text.replace('np.int64(', '').replace(')', ''),
                   tags=all(f'{k}: ' in text for k in tags.meta))


@CHECK.scenario(quick=8, thorough=80, trace='AreasTrace', chunks=4)
def zeroth(rec, rng, n):
    for j in range(n):
        with rec.session(f'matrix of the zeroth order {j}') as s, tempfile.TemporaryDirectory() as d, warnings.catch_warnings():
            warnings.simplefilter('ignore')
            q, info = edges(rng, int(rng.integers(4, 9)))
            if j % 2:
                x = np.linspace(0.4, 1.2, int(rng.integers(5, 9)))
                q, info = x * u.keV, {}
            e = np.sort(q.to(u.keV, equivalencies=u.spectral()).value)
            te = np.sort(rng.uniform(0.3, 1.5, int(rng.integers(2, 6))))
            tf = rng.uniform(40, 300, len(te))
            tab = QTable({'energy': te * u.keV, 'FWHM': tf * u.eV})
            thr = float(rng.choice([1e-6, 1e-3, 1e-2]))
            r = arfrmf.mkrmf0(q, ccdfwhm=tab, **({} if thr == 1e-6 else {'threshold': thr}))
            first = int(r.matrix.meta[f'TLMIN{r.matrix.colnames.index("F_CHAN") + 1}'])
            m = len(e) - 1
            rows = []
            for k in range(len(r.matrix)):
                full = np.zeros(m)
                pos, vals = 0, np.atleast_1d(r.matrix['MATRIX'][k])
                for f, c in zip(np.atleast_1d(r.matrix['F_CHAN'][k]), np.atleast_1d(r.matrix['N_CHAN'][k])):
                    full[int(f) - first:int(f) - first + int(c)] = vals[pos:pos + int(c)]
                    pos += int(c)
                rows.append(vec(full))
            s.emit('rmf0', edges=vec(e), ten=vec(te), tfw=vec(tf / 1e3), fwhm=num(2 * np.sqrt(2 * np.log(2))), thr=num(thr), row=rows,
                   lo=col(r.matrix, 'ENERG_LO', u.keV), hi=col(r.matrix, 'ENERG_HI', u.keV), det=[int(r.matrix.meta['DETCHANS'])],
                   chan=[num(int(x)) for x in np.asarray(r.ebounds['CHANNEL'] if 'CHANNEL' in r.ebounds.colnames else [r.ebounds['CHANNEL']] * m)], chan1=first, thrh=num(float(ogip_first(r.matrix.meta['LO_THRES']))),
                   efirst=int(r.ebounds.meta[f'TLMIN{r.ebounds.colnames.index("CHANNEL") + 1}']))


@CHECK.scenario(quick=4, thorough=40, trace='AreasTrace', chunks=1)
def axes(rec, rng, n):
    for j in range(n):
        with rec.session(f'optical axes {j}') as s:
            conf = dict(arcus.defaultconf)
            if j % 4:
                conf['pos_opt_ax'] = {k: v + np.r_[rng.uniform(-30, 30), rng.uniform(-3, 3), 0, 0] for k, v in conf['pos_opt_ax'].items()}
            dets = arcus.PerfectArcus.add_detectors(None, conf)
            for c in AXES:
                x = np.asarray(conf['pos_opt_ax'][c], float)
                k = 3
                ph = Table({'pos': np.tile([x[0], x[1], 200., 1.], (k, 1)), 'dir': np.tile([0, 0, -1., 0], (k, 1)), 'polarization': np.tile([0, 1., 0, 0], (k, 1)),
                            'energy': np.ones(k), 'probability': np.ones(k)})
                ph['energy'].unit = u.keV
                for e in dets:
                    ph = e(ph)
                for name in ('circ_phi', 'circ_y', 'proj_x', 'proj_y'):
                    z = analyze_grid.zeropos(name, c, conf) if j % 4 else analyze_grid.zeropos(name, c)
                    for i in range(k):
                        s.emit('zero', what=name, got=num(z), want=num(np.asarray(ph[name])[i]))
            with s.expect_error('zeroth order for a coordinate that is not known'):
                analyze_grid.zeropos('detpix_q', AXES[0])


def clipped(x):
    from astropy.stats import sigma_clipped_stats
    m, _, sd = sigma_clipped_stats(np.asarray(x))
    return m, sd


@CHECK.scenario(quick=6, thorough=60, trace='AreasTrace', chunks=2)
def grids(rec, rng, n):
    for j in range(n):
        with rec.session(f'grid of simulations {j}') as s, tempfile.TemporaryDirectory() as d, warnings.catch_warnings():
            warnings.simplefilter('ignore')
            conf = arcus.defaultconf
            orders = np.unique(rng.integers(-6, 3, 4))
            if j % 2 == 0:
                orders = np.unique(np.r_[orders, 0])
            order_list = [int(o) for o in orders]
            ids = list(id_num_offset.items())
            zero = [float(np.arcsin(conf['pos_opt_ax'][c][0] / conf['rowland_detector'].r)) for c, _ in ids]
            geo = float(rng.uniform(100, 1000))
            sims = {}
            nf = int(rng.integers(2, 4))
            ens = rng.uniform(0.3, 1.5, nf)
            for f in range(nf):
                parts = []
                for a, (c, off) in enumerate(ids):
                    for o in np.unique(np.r_[orders, 3]):
                        m = int(rng.choice([0, 5, 30, 60], p=[.1, .2, .4, .3]))
                        if m == 0:
                            continue
                        parts.append(Table({'xou': off + rng.integers(0, 800, m), 'order': np.full(m, o), 'order_L1': rng.choice([0, 0, 0, 1], m),
                                            'circ_phi': rng.normal(zero[a] + o * rng.uniform(0.001, 0.002), 1e-5, m),
                                            'CCD': rng.choice([-1, 1, 5, 16, 0], m).astype(float), 'probability': rng.choice([0, .3, .7, 1.], m)}))
                from astropy.table import vstack
                t = vstack(parts)
                t = t[rng.permutation(len(t))]
                t['energy'] = np.full(len(t), ens[f])
                t['energy'].unit = u.keV
                t.meta.update(A_GEOM=geo, EXPOSURE=float(2 * len(t)), ENERGY=float(ens[f]), MARXSVER='x')
                t.write(os.path.join(d, f'wave{int(rng.integers(10, 90))}{f}.fits'))
                sims[f] = t
            given = order_list if j % 3 == 1 else orders
            out = analyze_grid.aeffRfromraygrid(d, conf, orders=given)
            oe = out['energy'].to(u.keV).value
            for f in range(nf):
                t = sims[f]
                ap = np.digitize(t['xou'], [o for _, o in ids]) - 1
                seen, many, mean, std = [], [], [], []
                for a in range(4):
                    q = [(ap == a) & (t['order_L1'] == 0) & (t['order'] == o) for o in orders]
                    seen.append(vec([np.sum(t['probability'][x & (t['CCD'] >= 0)]) for x in q]))
                    ok = [t['circ_phi'][x & (t['probability'] > 0)] for x in q]
                    st = [clipped(x) if len(x) >= 20 else (np.nan, np.nan) for x in ok]
                    many.append([len(x) >= 20 for x in ok])
                    mean.append(vec([x[0] for x in st]))
                    std.append(vec([x[1] for x in st]))
                hit = [i for i in range(len(oe)) if abs(oe[i] - ens[f]) < 1e-9]
                i = hit[0] if hit else 0
                A = lambda name: u.Quantity(out[name][i]).to(u.cm**2).value
                R = lambda name: np.ma.filled(np.ma.asarray(getattr(out[name], 'unmasked', out[name])[i], float), np.nan)
                hor = [int(x) for x in analyze_grid.orders_from_meta(out.meta)]
                s.emit('grid', found=len(hit) if len(oe) == nf else 0, en=num(ens[f]), wave=num(out['wave'][i].to(u.Angstrom).value), orders=order_list, geo=num(geo), nph=num(t.meta['EXPOSURE']),
                       seen=seen, many=[[bool(x) for x in y] for y in many], mean=mean, std=std, zero=vec(zero), aeff=[vec(x) for x in A('Aeff')], r=[vec(x) for x in R('R')],
                       aeff4=vec(A('Aeff4')), r4=vec(R('R4')), aeffd=num(float(np.squeeze(A('Aeff_disp')))), rd=num(float(np.squeeze(R('R_disp')))), horders=hor, meta=bool(out.meta.get('MARXSVER') == 'x' and abs(out.meta.get('A_GEOM', 0) - geo) < 1e-9))
            p = os.path.join(d, 'out.fits')
            out.write(p)
            for name in ('Aeff4', 'R4'):
                analyze_grid.csv_per_order(p, name, os.path.join(d, 'o.csv'))
                t = Table.read(os.path.join(d, 'o.csv'), format='ascii.csv')
                want = np.ma.filled(np.ma.asarray(getattr(out[name], 'value', out[name]), float), np.nan)
                got = np.array([np.ma.filled(np.ma.asarray(t[c], float), np.nan) for c in t.colnames[1:]]).T
                s.emit('csv', names=t.colnames[1:], orders=order_list, got=vec(t['wave']) + vec(got), want=vec(out['wave'].value) + vec(want))
            # another version of the code
            t = sims[0].copy()
            t.meta['MARXSVER'] = 'y'
            t.write(os.path.join(d, 'wave999.fits'))
            with s.expect_error('grid of simulations from different versions'):
                analyze_grid.aeffRfromraygrid(d, conf, orders=orders)


@CHECK.scenario(quick=8, thorough=80, trace='AreasTrace', chunks=2)
def petals(rec, rng, n):
    for j in range(n):
        with rec.session(f'petal {j}') as s, caldb() as d, warnings.catch_warnings():
            warnings.simplefilter('ignore')
            rows = []
            wins = sorted(int(x) for x in rng.choice(np.arange(1, 30), int(rng.integers(1, 4)), replace=False))
            num0 = int(rng.integers(0, 50))
            x0, y0, z0 = rng.uniform([-100, 200, 11000], [500, 800, 11900])
            for w in wins:
                for k in range(int(rng.integers(1, 4))):
                    # next to each other, so that a photon along the normal of one misses the others
                    rot = axangle2mat(rng.normal(size=3), rng.uniform(0, 0.3)) @ np.array([[0, 1., 0], [0, 0, 1], [1, 0, 0]])
                    rows.append([w, num0 + len(rows), x0 + 45 * k, y0 + 45 * wins.index(w), z0 + rng.uniform(-5, 5)] + list(rot[:, 0]) + list(rot[:, 1]) + list(rot[:, 2])
                                + [rng.uniform(20, 30), rng.uniform(20, 30), rng.uniform(1.9e-4, 2.1e-4)])
            cols = ['SPO_MM_num', 'facet_num', 'X', 'Y', 'Z'] + [a + b for a in ('NormN', 'DispN', 'GBarN') for b in 'XYZ'] + ['xsize', 'ysize', 'period']
            t = Table(rows=rows, names=cols)
            t['period'].unit = u.mm
            t.write(os.path.join(d, 'gratings', 'facets.csv'), format='ascii.ecsv')
            ch = AXES[j % 4]
            order = int(rng.choice([-3, -1, 2]))
            conf = dict(arcus.defaultconf)
            conf['gratinggrid'] = {'elem_args': {'order_selector': OrderSelector([order])}}
            ax = np.asarray(conf['pos_opt_ax'][ch], float)
            if j % 2:
                petal = arcus.CATGratings(conf, channels=[ch]).elements[0]
            else:
                p4 = np.eye(4)
                p4[:, 3] = ax
                petal = ralfgrating.CATfromMechanical(pos4d=p4, channel=ch, conf=conf, id_num_offset=id_num_offset[ch])
            if j % 3 == 2:
                petal.generate_elements()
            fac = [(w, f) for w in petal.elements for f in w.elements]
            s.emit('facets', n=len(fac), rows=len(t), ids=[int(f.id_num) for _, f in fac])
            off = id_num_offset[ch]
            for k, row in enumerate(t):
                want = np.array(ax[:3]) + np.array([row['X'] * (1 if 'm' in ch else -1), row['Y'] * (-1 if '2' in ch else 1), row['Z']])
                w, f = min(fac, key=lambda q: np.linalg.norm(q[1].pos4d[:3, 3] - want))
                g = f.elements[0]
                # photon straight on to the facet, along its normal
                nrm = f.pos4d[:3, 0] / np.linalg.norm(f.pos4d[:3, 0])
                c = f.pos4d[:3, 3]
                ph = Table({'pos': [[*(c - 5 * nrm), 1.]] * 2, 'dir': [[*nrm, 0.]] * 2, 'polarization': [[*(f.pos4d[:3, 1] / np.linalg.norm(f.pos4d[:3, 1])), 0.]] * 2,
                            'energy': [0.5, 0.5], 'probability': [1., 1.]})
                ph['energy'].unit = u.keV
                keep = [e for e in f.elements]
                f.elements = keep[:1]
                try:
                    ph = petal(ph)
                finally:
                    f.elements = keep
                lam = HC / 0.5 * 1e-7
                turn = float(ph['dir'][0][:3] @ (f.pos4d[:3, 1] / np.linalg.norm(f.pos4d[:3, 1])))
                s.emit('facet', ch=ch, axis=vec(ax[:3]), c=vec([row['X'], row['Y'], row['Z']]), n=vec([row['NormN' + b] for b in 'XYZ']), d=vec([row['DispN' + b] for b in 'XYZ']),
                       g=vec([row['GBarN' + b] for b in 'XYZ']), xs=num(row['xsize']), ys=num(row['ysize']), M=mat(g.pos4d @ np.eye(4)), per=num(g._d), wantper=num(row['period']),
                       id=num(int(f.id_num)), wantid=num(off + int(row['facet_num'])), pid=num(int(ph['facet'][0])),
                       m=num(abs(order)), lam=num(lam), turn=num(abs(turn)))


@CHECK.scenario(quick=6, thorough=40, trace='AreasTrace', chunks=2)
def regular(rec, rng, n):
    for j in range(n):
        with rec.session(f'regular grid {j}') as s, caldb() as d, warnings.catch_warnings():
            warnings.simplefilter('ignore')
            conf = dict(arcus.defaultconf)
            scene(s, rng, d, conf)
            conf['blazeang'] = float(rng.uniform(0.5, 3))
            xs = np.linspace(-1, 1, 3) * rng.uniform(50, 100)
            ys = np.linspace(350, rng.uniform(450, 550), 3)
            conf['spo_pos4d'] = [rand.aff([a, b, 0], np.eye(3), [1, 1, 1]) for a in xs for b in ys]
            conf['spo_geom'] = Table({'azwidth': [60.] * 9, 'inner_radius': [440.] * 9, 'outer_radius': [500.] * 9})
            size = rng.uniform(10, 14, 2)
            step = rng.uniform(50, 70, 2)
            conf['gratinggrid'] = {'d_element': list(step), 'elem_class': catgrating.CATL1L2Stack, 'parallel_spec': np.array([1., 0, 0, 0]),
                                   'elem_args': {'zoom': [1., *size], 'order_selector': OrderSelector([-3])}}
            keys = [sorted(conf['gratinggrid']), sorted(conf['gratinggrid']['elem_args'])]
            chans = [AXES, list(AXES[::-1]), [AXES[j % 4]]][j % 3]
            grid = ralfgrating.RegularGrid(conf, chans) if j % 3 or j % 2 else ralfgrating.RegularGrid(conf)
            chans = chans if j % 3 or j % 2 else ['1', '2', '1m', '2m']
            got = {}
            for c, e in zip(chans, grid.elements):
                P = np.array([f.elements[0].pos4d for f in e.elements])
                cen, nrm = P[:, :3, 3], P[:, :3, 0] / np.linalg.norm(P[:, :3, 0], axis=1)[:, None]
                got[c] = [{'c': vec(a), 'n': vec(b)} for a, b in zip(cen, nrm)]
                T = conf['rowland_' + c]
                q = np.c_[cen, np.ones(len(cen))] @ np.linalg.inv(T.pos4d).T
                sheet = [np.hypot(np.hypot(q[:, 0], q[:, 2]) + sign * T.R, q[:, 1]) - T.r for sign in (-1, 1)]
                tor = np.where(np.abs(sheet[0]) < np.abs(sheet[1]), *sheet)
                ax = conf['pos_opt_ax'][c][:3]
                ymid = (1 if '1' in c else -1) * (ys[0] + ys[-1]) / 2
                s.emit('regular', c=[vec(x) for x in cen], n=[vec(x) for x in nrm], axis=vec(ax), wx=num(xs[-1] + 30 + step[0] + 8), wy=num((ys[-1] - ys[0]) / 2 + 30 + step[1] + 8), ymid=num(ymid),
                       tor=vec(tor), blaze=num(conf['blazeang']), ids=[num(int(f.id_num)) for f in e.elements], off=int(id_num_offset[c]),
                       half=[vec(np.linalg.norm(p[:3, 1:3], axis=0)) for p in P], size=vec(size))
            for a, b in (('2m', '1'), ('1m', '2')):
                if a in got and b in got:
                    s.emit('turned', a=got[a], b=got[b])
            mats = lambda: [mat(f.pos4d) for e in grid.elements[:-1] for f in e.elements]
            before = mats()
            for e in grid.elements[:-1]:
                e.generate_elements()
            s.emit('kept', before=before, after=mats(), conf=keys == [sorted(conf['gratinggrid']), sorted(conf['gratinggrid']['elem_args'])])
