"""C18: effective area, resolving power and focus from photon lists."""
import copy

import numpy as np
import astropy.units as u
from astropy.table import Table, MaskedColumn

from . import tlc
from .core import Check, some
from .num import num, vec, mat
from . import rand, phot

from marxs.analysis import gratings as ag
from marxs.analysis.analysis import (find_best_detector_position, detected_fraction, mean_width_2d,
                                     sigma_clipped_std)
from marxs.analysis.coords import ProjectOntoPlane, facet_table
from marxs.analysis.run_helpers import monoenergetic_astrosimulation
from marxs.optics import FlatDetector, FlatGrating, OrderSelector, RectangleAperture
from marxs.optics.grating import EfficiencyFile
from marxs.simulator import Parallel, Sequence

CHECK = Check('C18', assumptions=['line widths are compared to 1e-7; photons within rounding of the clipping limit '
                                  'are not judged',
                                  'best focus is judged for bundles whose width is a convex function of position'])
CHECK.mc('AnalysisMC')


NO_ORDER = -99


def listing(rng, orders, few=True, masked=False, nan=False, cols=('x',)):
    """photon list with lines of different strength, outliers, lost photons"""
    o = []
    for k in orders:
        o += [k] * int(rng.choice([0, 3, 19, 20, 21, 35]) if few else rng.integers(22, 40))
    o = np.array(o, dtype=int)
    rng.shuffle(o)
    n = len(o)
    t = Table({'order': o, 'probability': np.where(rng.random(n) < 0.15, 0., rng.uniform(0, 1, n))})
    t.meta['n'] = n
    missed = rng.random(n) < rng.choice([0., 0., 0.2])         # photons that were never diffracted have no order
    if missed.any():
        t['order'] = np.where(missed, np.nan, o)
    for c in cols:
        width = 10 ** rng.uniform(-2, 0.5)
        step = rng.uniform(1, 30)
        x = o * step + rng.uniform(-5, 5)
        x = x + (rng.normal(size=n) if rng.random() < 0.5 else rng.uniform(-1, 1, n)) * width
        out = rng.random(n) < 0.05
        x[out] += rng.choice([-1, 1], out.sum()) * rng.uniform(3, 100, out.sum()) * width
        if nan:
            x[rng.random(n) < 0.1] = np.nan
        t[c] = MaskedColumn(x, mask=rng.random(n) < 0.15) if masked else x
    return t


def seen(t, col, use=None):
    n = len(t)
    x = t[col]
    m = np.asarray(getattr(x, 'mask', np.zeros(n, bool)))
    d = np.where(m, np.nan, np.asarray(getattr(x, 'data', x), dtype=float))
    return {'x': vec(d), 'ord': [int(v) if np.isfinite(v) else NO_ORDER for v in t['order']], 'prob': vec(t['probability']),
            'use': [bool(v) for v in (np.ones(n, bool) if use is None else use)]}


def nums(v):
    v = np.ma.filled(np.ma.masked_array(getattr(v, 'value', v), dtype=float), np.nan)
    return [num(x) for x in np.atleast_1d(v)]


def some_orders(rng):
    return np.array(sorted({int(x) for x in rng.integers(-6, 7, 4)} | {0}))


@CHECK.scenario(quick=80, thorough=1500, trace='AnalysisTrace', chunks=3)
def areas(rec, rng, n):
    for j in range(n):
        with rec.session('effective area') as s:
            orders = some_orders(rng)
            t = listing(rng, orders)
            if not len(t):
                continue
            ask = rng.permutation(np.r_[orders, 9])[:int(rng.integers(1, 6))]
            sent = len(t) + int(rng.integers(0, 200))
            A = rng.uniform(0.1, 1000)
            un = [u.cm**2, u.mm**2][j % 2]
            if j % 3 == 1:
                t.rename_column('order', 'ord2')
                out = ag.effectivearea_from_photonlist(t, ask, sent, A * un, ordercol='ord2')
                t.rename_column('ord2', 'order')
            else:
                out = ag.effectivearea_from_photonlist(t, ask if j % 4 else list(ask), sent, A * un)
            s.emit('aeff', ph=seen(t, 'x'), orders=[int(x) for x in ask], n=sent, A=num(A),
                   out=nums(out.to_value(un)))
            out = detected_fraction(t, ask)
            s.emit('frac', ph=seen(t, 'x'), orders=[int(x) for x in ask], out=nums(out))


@CHECK.scenario(quick=60, thorough=3000, trace='AnalysisTrace', chunks=2)
def told_lists(rec, rng, n):
    """histories of a photon list from the model: photons sent, lost, deselected, rows swapped"""
    for b in some(rng, tlc.behaviours('AnalysisGen', num=max(3, n // 2), depth=10, seed=int(rng.integers(10**6))), n):
        with rec.session('photon list told by the model') as s:
            rows, sent = [], 0
            for e in b:
                i = e.get('i', 1) - 1
                if e['op'] == 'send':
                    rows.append([e['p'] / 4, e['o'], True])
                    sent += 1
                elif e['op'] == 'lose':
                    rows[i][0] = 0.
                elif e['op'] == 'deselect':
                    rows[i][2] = False
                else:
                    rows[i], rows[i + 1] = rows[i + 1], rows[i]
                t = Table({'order': [float(r[1]) for r in rows], 'probability': [r[0] for r in rows], 'x': [1.] * len(rows)})
                use = np.array([r[2] for r in rows])
                out = ag.effectivearea_from_photonlist(t[use], [0, 1], sent, 3.5 * u.cm**2)
                s.emit('aeff', ph=seen(t, 'x', use), orders=[0, 1], n=sent, A=num(3.5), out=nums(out.to_value(u.cm**2)))
                tot = ag.effectivearea_from_photonlist(t[use], [1], sent, 3.5 * u.cm**2)
                s.emit('aeff', ph=seen(t, 'x', use), orders=[1], n=sent, A=num(3.5), out=nums(tot.to_value(u.cm**2)))


@CHECK.scenario(quick=80, thorough=1500, trace='AnalysisTrace', chunks=3)
def powers(rec, rng, n):
    for j in range(n):
        with rec.session('resolving power from a photon list') as s:
            orders = some_orders(rng)
            t = listing(rng, orders, masked=bool(j % 3 == 0), few=bool(j % 2))
            if not len(t):
                continue
            ask = rng.permutation(orders)[:int(rng.integers(1, 5))]
            zero = None if j % 2 else rng.uniform(-3, 3)
            if j % 4 == 0:
                t = t[rng.permutation(len(t))]
            e = dict(ph=seen(t, 'x'), orders=[int(x) for x in ask], zero=num(np.nan if zero is None else zero), failed=False,
                     r=[], pos=[], sd=[])
            try:
                r, pos, sd = ag.resolvingpower_from_photonlist(t, ask, col='x', zeropos=zero)
                e.update(r=nums(r), pos=nums(pos), sd=nums(sd))
            except ag.AnalysisError:
                e['failed'] = True
            s.emit('power', **e)


@CHECK.scenario(quick=25, thorough=500, trace='AnalysisTrace')
def worst_case(rec, rng, n):
    for j in range(n):
        with rec.session('worst case of several lists') as s:
            orders = some_orders(rng)
            k = int(rng.integers(1, 4))
            cols = [f'c{i}' for i in range(k)]
            if j % 2:
                ts = [listing(rng, orders, few=bool(j % 4 == 1), cols=cols)] * k
            else:
                ts = [listing(rng, orders, few=False, cols=cols) for _ in range(k)]
            zeros = rng.uniform(-3, 3, k)
            r, pos, sd = ag.resolvingpower_from_photonlist_robust(ts, orders, cols, list(zeros))
            s.emit('robust', lists=[seen(t, c) for t, c in zip(ts, cols)], orders=[int(x) for x in orders],
                   zeros=vec(zeros), r=nums(r), pos=nums(pos), sd=nums(sd))
    with rec.session('worst case: lists of different length') as s:
        t = listing(rng, [0, 1], few=False)
        with s.expect_error('more zero positions than columns'):
            ag.resolvingpower_from_photonlist_robust([t], [0, 1], ['x'], [0., 1.])
        with s.expect_error('more lists than columns'):
            ag.resolvingpower_from_photonlist_robust([t, t], [0, 1], ['x'], [0.])


@CHECK.scenario(quick=50, thorough=900, trace='AnalysisTrace', chunks=2)
def reports(rec, rng, n):
    for j in range(n):
        gaps = bool(j % 2)
        with rec.session('report with chip gaps' if gaps else 'report') as s:
            orders = some_orders(rng)
            t = listing(rng, orders, masked=bool(j % 3 == 0), nan=bool(j % 5 == 0), few=bool(j % 4 < 2))
            if len(t) < 2:
                continue
            t['CCD_ID'] = rng.choice([-1, 0, 3], len(t))
            zero = None if j % 2 else rng.uniform(-3, 3)
            A = rng.uniform(0.1, 100)
            unit = bool(j % 3 == 1)
            kw = dict(A_geom=A * u.cm**2 if unit else A, orders=orders if j % 2 else list(orders), dispersion_coord='x', zeropos=zero)
            C = ag.CaptureResAeff_CCDgaps(**kw) if gaps else ag.CaptureResAeff(**kw)
            sent = None if j % 3 == 0 else len(t) + int(rng.integers(0, 100))
            before = copy.deepcopy(t)
            if j % 3 == 2:      # an earlier analysis must leave no trace
                C(listing(rng, orders, few=False) if not gaps else t[::2])
            out = C(t, n_photons=sent) if sent is not None else C(t)
            good = np.isfinite(np.asarray(t['x'].data)) & (np.asarray(t['probability']) > 0)
            good &= ~np.asarray(getattr(t['x'], 'mask', np.zeros(len(t), bool)))
            s.emit('report', ph=seen(t, 'x', np.asarray(t['CCD_ID']) >= 0 if gaps else None),
                   res=seen(t, 'x', good), orders=[int(x) for x in orders], n=sent or len(t), A=num(A),
                   zero=num(np.nan if zero is None else zero), aeff=nums(out['Aeff']), zeroth=nums(out['Aeff0'])[0],
                   grat=nums(out['Aeffgrat'])[0], r=nums(out['R']), rgrat=nums(out['Rgrat'])[0],
                   same=seen(before, 'x') == seen(t, 'x') and before.colnames == t.colnames)


@CHECK.scenario(quick=60, thorough=1000, trace='AnalysisTrace')
def averages(rec, rng, n):
    for j in range(n):
        with rec.session('average over orders') as s:
            k = int(rng.integers(1, 7))
            r = np.where(rng.random(k) < 0.2, np.nan, 10 ** rng.uniform(0, 4, k))
            a = np.where(rng.random(k) < 0.2, 0., rng.uniform(0, 50, k))
            if j % 3 == 0:
                q = 3
                r2 = np.stack([r, r[::-1], np.roll(r, 1)])
                a2 = np.stack([a, a * 2, a[::-1]])
                ro, ao = ag.average_R_Aeff(r2, a2 * u.cm**2 if j % 2 else a2, axis=1)
                ro, ao = nums(ro), nums(ao)
                for i in range(q):
                    s.emit('avg', r=vec(r2[i]), a=vec(a2[i]), out=ro[i], tot=ao[i])
            else:
                ro, ao = ag.average_R_Aeff(r, a * u.cm**2 if j % 2 else a)
                if hasattr(ro, 'unit') and ro.unit != u.dimensionless_unscaled:
                    raise ValueError(f'resolving power in {ro.unit}')
                s.emit('avg', r=vec(r), a=vec(a), out=nums(ro)[0], tot=nums(ao)[0])


@CHECK.scenario(quick=25, thorough=500, trace='AnalysisTrace')
def tabulated_average(rec, rng, n):
    for j in range(n):
        with rec.session('average with tabulated efficiency') as s:
            orders = np.array(sorted({int(x) for x in rng.integers(-6, 7, 4)}))
            m = int(rng.integers(2, 6))
            en = np.sort(rng.uniform(0.2, 8, m))
            prob = rng.uniform(0, 0.2, (m, len(orders)))
            turn = [np.arange(m), np.arange(m)[::-1], rng.permutation(m)][j % 3]      # rows in any order
            eff = EfficiencyFile.__new__(EfficiencyFile)      # a table as read from file
            eff.energy, eff.orders, eff.prob = en[turn], orders, prob[turn]
            ask = rng.permutation(orders)[:int(rng.integers(1, len(orders) + 1))]
            q = rng.uniform(0.1, 9, int(rng.integers(1, 5)))
            data = rng.uniform(10, 1000, (len(ask), len(q)))
            if j % 4 == 0:
                data = np.ma.masked_array(data, mask=rng.random(data.shape) < 0.2)
            out = ag.weighted_per_order(data, ask, q, eff)
            s.emit('table', tab={'en': vec(en), 'ord': [int(x) for x in orders], 'p': [vec(prob[:, i]) for i in range(len(orders))]},
                   orders=[int(x) for x in ask], en=vec(q), data=[nums(d) for d in data], out=nums(out))
            with s.expect_error('order that is not in the table'):
                ag.weighted_per_order(np.ones((1, 2)), np.array([99]), np.array([1., 2.]), eff)
            with s.expect_error('data of another shape (orders)'):
                ag.weighted_per_order(np.ones((len(ask) + 1, len(q))), ask, q, eff)
            with s.expect_error('data of another shape (energies)'):
                ag.weighted_per_order(np.ones((len(ask), len(q) + 1)), ask, q, eff)


@CHECK.scenario(quick=40, thorough=600, trace='AnalysisTrace')
def sectors(rec, rng, n):
    for j in range(n):
        with rec.session('sub-aperture sectors') as s:
            a0 = [np.pi / 2, rng.uniform(0, np.pi), rng.uniform(-7, 7)][j % 3]
            m = rng.uniform(0, np.pi)
            a = rng.uniform(-9, 9, 12)
            a[:4] = rng.choice([-1, 1], 4) * a0 + rng.choice([-1, 1], 4) * m * (1 + rng.choice([-1, 1], 4) * 1e-5) + 2 * np.pi * rng.integers(-1, 2, 4)
            out = ag.identify_photon_in_subaperture(a, m, a0) if j % 3 else ag.identify_photon_in_subaperture(a, m)
            for i in range(12):
                s.emit('sector', c=num(np.cos(a[i])), s=num(np.sin(a[i])), c0=num(np.cos(a0)), s0=num(np.sin(a0)),
                       cm=num(np.cos(m)), **{'in': bool(out[i])})


def bundle(rng, R, n):
    """rays that nearly meet in one point, from upstream"""
    f = rng.uniform(-5, 5)
    up = rng.uniform(400, 800)
    ap = rng.uniform(5, 30)
    yz = rng.uniform(-1, 1, (n, 2)) * ap
    blur = rng.uniform(-1, 1, (n, 2)) * 10 ** rng.uniform(-3, -1)
    p = np.c_[np.full(n, up), yz]
    tgt = np.c_[np.full(n, f), blur]
    d = tgt - p
    d /= np.linalg.norm(d, axis=1)[:, None]
    return p @ R.T, d @ R.T


@CHECK.scenario(quick=40, thorough=500, trace='AnalysisTrace', chunks=2)
def focus(rec, rng, n):
    for j in range(n):
        two = bool(j % 3 == 1)
        with rec.session('best focus, both directions' if two else 'best focus') as s:
            R = np.eye(3) if j % 2 else rand.rotation(rng)
            pos, dr = bundle(rng, R, 24)
            t = rand.photons(rng, pos, dr)
            b = phot.snapshot(t)
            kw = {} if j % 2 else {'orientation': R}
            if two:
                out = find_best_detector_position(t, mean_width_2d, {}, **kw)
            elif j % 3:
                out = find_best_detector_position(t, sigma_clipped_std, {'colname': 'det_x'}, **kw)
            else:
                out = find_best_detector_position(t, **kw)
            a = phot.snapshot(t)
            near = out.x + np.r_[-1, 1, -0.1, 0.1, -0.01, 0.01, rng.uniform(-5, 5, 2)]
            def flat(sn):
                return [[k, vec(sn[k])] for k in sorted(sn)]
            s.emit('focus', rays=[{'p': vec(pos[i]), 'd': vec(dr[i])} for i in range(len(pos))], R=mat(R), x=num(out.x),
                   fun=num(out.fun), near=vec(near), two=two, before=flat(b), after=flat(a))


@CHECK.scenario(quick=30, thorough=300, trace='AnalysisTrace')
def per_order(rec, rng, n):
    """ray-trace order by order: same as tracing each order alone"""
    for j in range(n):
        with rec.session('resolving power by tracing order after order') as s:
            R = np.eye(3)
            pos, dr = bundle(rng, R, 40)
            t = rand.photons(rng, pos, dr, prob=np.where(rng.random(40) < 0.25, 0., rng.uniform(0.1, 1, 40)),
                             energy=rng.uniform(0.9, 1.1) * np.ones(40))
            t['pos'][t['probability'] == 0, 1] += 30.
            x0 = 300.
            gas = Parallel(elem_class=FlatGrating, elem_pos={'position': [[x0, 20, 0], [x0, -20, 0]]},
                           elem_args={'d': 2e-4, 'zoom': [1, 19, 40], 'order_selector': OrderSelector([0])}, id_col='facet')
            det = FlatDetector(position=[rng.uniform(-3, 3), 0, 0], zoom=[1, 100, 100],
                               orientation=np.array([[1., 0, 0], [0, 0, -1], [0, 1, 0]]) if j % 2 else np.eye(3))
            col = 'det_y' if j % 2 else 'det_x'
            ask = rng.permutation([-2, -1, 0, 1, 2, 3])[:3]
            # the same photons, one order at a time
            zero = det(t.copy())
            x, o, pr = [], [], []
            for order in ask:
                g = Parallel(elem_class=FlatGrating, elem_pos={'position': [[x0, 20, 0], [x0, -20, 0]]},
                             elem_args={'d': 2e-4, 'zoom': [1, 19, 40], 'order_selector': OrderSelector([int(order)])}, id_col='facet')
                p = det(g(t.copy()))
                x += list(p[col])
                o += [int(v) if np.isfinite(v) else 99 for v in p['order']]
                pr += list(p['probability'])
            shift = 1000
            ph = {'x': vec(np.r_[x, zero[col]]), 'ord': o + [shift] * len(zero), 'prob': vec(np.r_[pr, zero['probability']]),
                  'use': [bool(v) for v in np.r_[np.array(pr) > 0, np.asarray(zero['probability']) > 0]]}
            b = phot.snapshot(t)
            res, fwhm, info = ag.resolvingpower_per_order(gas, t, ask, det, col)
            s.emit('traced', ph=ph, orders=[int(v) for v in ask], zero=shift, r=vec(res), fwhm=vec(fwhm),
                   same=all(np.array_equal(b[k], phot.snapshot(t)[k], equal_nan=True) for k in b))


@CHECK.scenario(quick=40, thorough=500, trace='AnalysisTrace')
def projections(rec, rng, n):
    for j in range(n):
        with rec.session('projection') as s:
            M = rand.aff(rng.normal(size=3) * 20, rand.rotation(rng), 10 ** rng.uniform(-1, 1, 3))
            pl = ProjectOntoPlane(pos4d=M.copy())
            p = rng.normal(size=(5, 3)) * 30
            if j % 2:
                t = Table({'pos': np.c_[p, np.ones(5)]})
                names = list(pl.loc_coos_name)
                t = pl(t)
                s.emit('proj', M=mat(M), pos=[vec(x) for x in p], x=vec(t['proj_x']), y=vec(t['proj_y']),
                       names=names, names1=list(pl.loc_coos_name))
            else:
                k = int(rng.integers(1, 6))
                mats = [rand.rigid(rng) for _ in range(k)]
                g = Parallel(elem_class=FlatGrating, elem_pos=mats, elem_args={'d': 1e-3, 'order_selector': OrderSelector([0])},
                             id_col='facet', id_num_offset=int(rng.integers(0, 50)))
                names = list(pl.loc_coos_name)
                t = facet_table(g, pl) if j % 4 else facet_table(g)
                if j % 4 == 0:
                    M = np.eye(4)
                    names = names1 = ['proj_x', 'proj_y']
                    q = ProjectOntoPlane()(Table({'pos': np.array([[1., 2, 3, 1]])}))
                    names1 = [c for c in q.colnames if c != 'pos']
                else:
                    names1 = list(pl.loc_coos_name)
                s.emit('proj', M=mat(M), pos=[vec(np.r_[m[:3, 3], 1]) for m in mats], x=vec(t['facet_projx']), y=vec(t['facet_projy']),
                       names=names, names1=names1)
                s.emit('proj', M=mat(np.array([[0, 1., 0, 0], [1, 0, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1]])),
                       pos=[vec(np.r_[m[:3, 3], 1]) for m in mats], x=vec(t['facet_x']), y=vec(t['facet_z']), names=[], names1=[])
                s.emit('polar', x=vec(t['facet_projx']), y=vec(t['facet_projy']), r=vec(t['facet_rad']), phi=vec(t['facet_ang']),
                       ids=[int(x) for x in t['facet']], want=[int(e.id_num) for e in g.elements])


@CHECK.scenario(quick=12, thorough=100, trace='AnalysisTrace')
def helper(rec, rng, n):
    for j in range(n):
        with rec.session('simple simulation') as s:
            T = np.eye(4) if j % 2 else rand.aff((0, 0, 0), rand.rotation(rng))
            k = int(rng.integers(1, 200))
            e = rng.uniform(0.2, 8)
            ap = RectangleAperture(pos4d=T @ rand.aff((100, 0, 0), None, (1, 3, 4)))
            kw = {} if j % 2 else {'reference_transform': T}
            en = [e * u.keV, (e * u.keV).to(u.Angstrom, equivalencies=u.spectral())][int(rng.integers(2))] if j % 3 else e * 1000 * u.eV
            p = monoenergetic_astrosimulation(Sequence(elements=[ap]), en, n_photons=k, **kw)
            s.emit('mono', n=len(p), asked=k, en=vec(p['energy']), energy=num(e), dir=[vec(x) for x in p['dir']],
                   axis=vec(T[:3, :3] @ [-1., 0, 0]))
