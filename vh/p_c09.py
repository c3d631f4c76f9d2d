"""C09: diffraction orders follow the efficiency table in use."""
import os

import numpy as np
import astropy.units as u
from astropy.table import Table, Column
from astropy.utils.data import get_pkg_data_filename

from .core import Check
from .num import num, vec, mat
from . import rand, zoo, phot, tlc

from marxs.optics import FlatGrating, CATGrating, OrderSelector, EfficiencyFile
from marxs.missions.mitsnl.catgrating import InterpolateEfficiencyTable, l1_order_selector
from marxs.missions.mitsnl.tolerances import OrderSelectorWavy, OrderSelectorTopHat
from marxs.missions.mitsnl.tolerances import wiggle_and_bar_tilt  # noqa: F401
from marxs.design.tolerancing import varyorderselector

CHECK = Check('C09', assumptions=[
    'frequencies are judged at six standard deviations',
    'photons with an energy half-way between two table entries are not judged',
    'interpolated tables are judged inside the tabulated range, for the default linear interpolation'])
CHECK.mc('OrdersMC')


def table(s, kind, orders, **kw):
    s.emit('table', kind=kind, orders=[num(int(o)) for o in orders], **kw)


def weights(rng, k, total=None):
    w = rng.uniform(0, 1, k)
    w[rng.random(k) < 0.3] = 0
    if w.sum() == 0:
        w[rng.integers(k)] = 1
    return w / w.sum() * (rng.uniform(0.05, 1) if total is None else total)


def orderlist(rng, k):
    if rng.random() < 0.5:
        return np.arange(k) - int(rng.integers(0, k + 4))
    return rng.permutation(np.arange(-20, 20))[:k]


def counts(m, orders):
    return [int(np.sum(m == o)) for o in orders]


def parts(m):
    """the draws, and some of them: neither the place in the list nor the draw before matters"""
    n = len(m)
    v, c = np.unique(m, return_counts=True)
    return [m, m[:n // 3], m[-n // 4:], m[::2], m[1:][m[:-1] == v[np.argmax(c)]]]


@CHECK.scenario(quick=60, thorough=900, trace='OrdersTrace', chunks=2)
def order_lists(rec, rng, n):
    for j in range(n):
        with rec.session('order list') as s:
            k = int(rng.integers(1, 12))
            o = orderlist(rng, k)
            w = weights(rng, k, 1. if j % 4 == 0 else None)
            if j % 5 == 0:
                sel = OrderSelector(o)
                w = np.ones(k) / k
            else:
                sel = OrderSelector(list(o) if j % 2 else o, list(w) if j % 3 else w)
            table(s, 'list', o, w=vec(w))
            en = rng.uniform(0.1, 10, 30)
            m, p = sel(en, None, None)
            for i in range(30):
                s.emit('draw', en=num(en[i]), m=num(m[i]), p=num(p[i]))
            for i in range(3):     # one photon at a time
                m, p = sel(float(en[i]), None, None)
                s.emit('draw', en=num(en[i]), m=num(m), p=num(p))
            N = 20000
            m, p = sel(np.full(N, 1.), None, None)
            for x in parts(m):
                s.emit('freq', en=num(1), n=len(x), c=counts(x, o))


@CHECK.scenario(quick=40, thorough=600, trace='OrdersTrace', chunks=4)
def efficiency_files(rec, rng, n):
    for j in range(n):
        with rec.session('efficiency file') as s:
            k = int(rng.integers(1, 9))
            r = int(rng.integers(2, 8))
            o = orderlist(rng, k)
            en = rng.uniform(0.1, 8, r)
            if j % 2:
                en = np.sort(en)[::rng.choice([-1, 1])]
            rows = [weights(rng, k) for i in range(r)]
            if j % 3 == 0:
                rows[int(rng.integers(r))] = np.zeros(k)
            if j % 4 == 0:      # one order only in each line
                for i in range(r):
                    z = np.zeros(k)
                    z[rng.integers(k)] = rng.uniform(0.1, 1)
                    rows[i] = z
            fn = os.path.join(tlc.work(), f'c09_{os.getpid()}_{rng.integers(1 << 30)}.dat')
            np.savetxt(fn, np.c_[en, np.array(rows)], fmt='%.17g')
            sel = EfficiencyFile(fn, list(o) if j % 2 else o)
            table(s, 'file', o, en=vec(en), rows=[vec(x) for x in rows])
            e = np.r_[rng.uniform(0.01, 9, 25), en]
            m, p = sel(e, None, None)
            for i in range(len(e)):
                s.emit('draw', en=num(e[i]), m=num(m[i]), p=num(p[i]))
            N = 3000
            for e0 in (en[0], en[-1] * 1.0001):
                m, p = sel(np.full(N, e0), None, None)
                for x in parts(m):
                    s.emit('freq', en=num(e0), n=len(x), c=counts(x, o))
            ab = np.repeat([en[0], en[-1]], N // 2)      # two lines in one list
            if j % 2:
                ab = rng.permutation(ab)
            m, p = sel(ab, None, None)
            for e0 in set([en[0], en[-1]]):
                s.emit('freq', en=num(e0), n=int((ab == e0).sum()), c=counts(m[ab == e0], o))
            # inside a grating: every photon gets its own energy's line
            M = rand.rigid(rng) @ np.diag([1., 5, 5, 1])
            kl = FlatGrating if j % 2 else CATGrating
            g = kl(d=0.1, order_selector=sel, pos4d=M)
            pos, d = zoo.aimed(rng, zoo.Spec('g', g, [zoo.surf(M)], angle=0.4), 20)
            t = rand.photons(rng, pos, d)
            p0 = np.array(t['probability'])
            t = g(t)
            if 'order' in t.colnames:
                for i in np.nonzero(np.isfinite(np.asarray(t['blaze'])))[0]:
                    s.emit('draw', en=num(t['energy'][i]), m=num(t['order'][i]), p=num(t['probability'][i] / p0[i]))
            os.remove(fn)


def grid_table(rng, nx, ny, o, unit='deg', rows=None):
    wave = np.sort(rng.uniform(0.2, 6, nx))
    th = np.sort(rng.uniform(0.2, 4, ny))
    while np.min(np.diff(wave)) < 0.05 or np.min(np.diff(th)) < 0.05:
        wave = np.sort(rng.uniform(0.2, 6, nx))
        th = np.sort(rng.uniform(0.2, 4, ny))
    dat = np.array([[weights(rng, len(o)) for y in th] for x in wave])
    if rng.random() < 0.5:
        dat[:, :, rng.integers(len(o))] = 0.
    t = Table()
    t['wave'] = Column(np.repeat(wave, ny), unit='nm')
    f = {'deg': 1., 'arcmin': 60., 'rad': np.pi / 180}[unit]
    t['theta'] = Column(np.tile(th * f, nx), unit=unit)
    for i, x in enumerate(o):
        t[str(int(x))] = dat[:, :, i].ravel()
    return t, wave, np.deg2rad(th), dat


def emit_g(s, k, wave, th, dat, en, bl, **kw):
    w = 1.2398419843 / en
    ix = int(np.clip(np.searchsorted(wave, w) - 1, 0, len(wave) - 2))
    iy = int(np.clip(np.searchsorted(th, bl) - 1, 0, len(th) - 2))
    s.emit(k, en=num(en), blaze=num(bl), x0=num(wave[ix]), x1=num(wave[ix + 1]), y0=num(th[iy]), y1=num(th[iy + 1]),
           c=[vec([dat[ix, iy, i], dat[ix, iy + 1, i], dat[ix + 1, iy, i], dat[ix + 1, iy + 1, i]])
              for i in range(dat.shape[2])], **kw)


def inside(rng, wave, th, n):
    w = rng.uniform(wave[0] * 1.0001, wave[-1] * 0.9999, n)
    return 1.2398419843 / w, rng.uniform(th[0], th[-1], n)


@CHECK.scenario(quick=40, thorough=600, trace='OrdersTrace', chunks=2)
def interpolated_tables(rec, rng, n):
    for j in range(n):
        with rec.session('interpolated table') as s:
            k = int(rng.integers(1, 7))
            o = orderlist(rng, k)
            t, wave, th, dat = grid_table(rng, int(rng.integers(2, 6)), int(rng.integers(2, 6)), o,
                                          ['deg', 'rad', 'arcmin'][j % 3])
            sel = InterpolateEfficiencyTable(t)
            table(s, 'grid', o)
            en, bl = inside(rng, wave, th, 25)
            m, p = sel(en, None, bl)
            for i in range(25):
                emit_g(s, 'gdraw', wave, th, dat, en[i], bl[i], m=num(m[i]), p=num(p[i]))
            N = 20000
            m, p = sel(np.full(N, en[0]), None, np.full(N, bl[0]))
            for x in parts(m):
                emit_g(s, 'gfreq', wave, th, dat, en[0], bl[0], n=len(x), c2=counts(x, o))
            which = np.repeat([0, 1], N // 2)       # two kinds of photons in one list
            if j % 2:
                which = rng.permutation(which)
            m, p = sel(en[which], None, bl[which])
            for w in (0, 1):
                emit_g(s, 'gfreq', wave, th, dat, en[w], bl[w], n=N // 2, c2=counts(m[which == w], o))
            # same table, other bars: no spread is the same as no such table
            for cls, arg in ((OrderSelectorWavy, 'wavysigma'), (OrderSelectorTopHat, 'tophatwidth')):
                sel2 = cls(**{arg: 0., 'tab': t})
                m, p = sel2(en, None, bl)
                for i in range(10):
                    emit_g(s, 'gdraw', wave, th, dat, en[i], bl[i], m=num(m[i]), p=num(p[i]))
            # inside a grating: the blaze angle of each photon is used
            M = rand.rigid(rng) @ np.diag([1., 5, 5, 1])
            g = CATGrating(d=0.1, order_selector=OrderSelector([0]), pos4d=M)
            if j % 2:
                varyorderselector(g, InterpolateEfficiencyTable, t)
            else:
                g.order_selector = sel
            b = rng.uniform(th[0], th[-1], 20)
            dl = np.c_[np.cos(b), np.sin(b) * rng.choice([-1, 1], 20), np.zeros(20)]
            d = dl @ (M[:3, :3] / np.linalg.norm(M[:3, :3], axis=0)).T
            pos = M[:3, 3] + rng.uniform(-4, 4, (20, 1)) * M[:3, 1] / 5 - d
            ph = rand.photons(rng, pos, d, energy=inside(rng, wave, th, 20)[0])
            p0 = np.array(ph['probability'])
            ph = g(ph)
            for i in range(20):
                bb = float(ph['blaze'][i])
                if th[0] <= bb <= th[-1]:
                    emit_g(s, 'gdraw', wave, th, dat, float(ph['energy'][i]), bb, m=num(ph['order'][i]),
                           p=num(ph['probability'][i] / p0[i]))


@CHECK.scenario(quick=3, thorough=12, trace='OrdersTrace')
def shipped_tables(rec, rng, n):
    """the efficiency tables shipped for CAT gratings"""
    for j in range(n):
        with rec.session('shipped table') as s:
            if j % 3 == 2:
                o = np.asarray(l1_order_selector.orderlist)
                w = np.array([0.006, 0.0135, 0.022, 0.028, 0.861, 0.028, 0.022, 0.0135, 0.006])
                table(s, 'list', range(-4, 5), w=vec(w))
                m, p = l1_order_selector(np.full(20000, 1.), None, None)
                s.emit('freq', en=num(1), n=20000, c=counts(m, range(-4, 5)))
                continue
            f = get_pkg_data_filename('data/' + ['Si_efficiency_5_7.dat', 'SiPt_efficiency_5_7.dat'][j % 3],
                                      package='marxs.missions.mitsnl')
            t = Table.read(f, format='ascii.ecsv')
            sel = InterpolateEfficiencyTable(t)
            o = [int(c) for c in t.colnames[2:]]
            wave = np.unique(np.asarray(t.columns[0], float))
            th = np.deg2rad(np.unique(np.asarray(t.columns[1], float)))
            dat = np.stack([np.asarray(t[c], float).reshape(len(wave), len(th)) for c in t.colnames[2:]], axis=2)
            table(s, 'grid', o)
            en, bl = inside(rng, wave, th, 30)
            m, p = sel(en, None, bl)
            for i in range(30):
                emit_g(s, 'gdraw', wave, th, dat, en[i], bl[i], m=num(m[i]), p=num(p[i]))
            N = 20000
            m, p = sel(np.full(N, en[0]), None, np.full(N, bl[0]))
            emit_g(s, 'gfreq', wave, th, dat, en[0], bl[0], n=N, c2=counts(m, o))


@CHECK.scenario(quick=8, thorough=60, trace='OrdersTrace')
def bars_not_parallel(rec, rng, n):
    """tables that add a random offset to the blaze angle"""
    for j in range(n):
        with rec.session('random blaze offsets') as s:
            th = np.linspace(-20, 20, 3)
            t = Table()
            t['wave'] = Column(np.repeat([0.1, 10.], 3), unit='nm')
            t['theta'] = Column(np.tile(th, 2), unit='deg')
            t['0'] = np.tile(0.5 + th / 50., 2)
            N = 20000
            bl = np.deg2rad(rng.uniform(-3, 3, N))
            w = np.deg2rad(rng.uniform(0.1, 2))
            if j % 2:
                sel, sig, lim = OrderSelectorWavy(wavysigma=w, tab=t), w, 0.
            else:
                sel, sig, lim = OrderSelectorTopHat(tophatwidth=w, tab=t), w / np.sqrt(12), w / 2
            m, p = sel(np.full(N, 1.), None, bl)
            off = np.deg2rad((p - 0.5) * 50) - bl
            s.emit('noise', n=N, mean=num(off.mean()), sd=num(off.std()), sigma=num(sig), lim=num(lim),
                   max=num(np.abs(off).max()))


@CHECK.scenario(quick=40, thorough=400, trace='OrdersTrace')
def malformed(rec, rng, n):
    for j in range(n):
        with rec.session('malformed tables') as s:
            k = int(rng.integers(2, 8))
            o = orderlist(rng, k)
            w = weights(rng, k)
            bad = [w[:-1], np.r_[w, 0.], w / w.sum() * rng.uniform(1.001, 3), w.copy()]
            bad[3][rng.integers(k)] = -rng.uniform(1e-6, 0.1)
            name = ['too few', 'too many', 'more than one', 'negative']
            i = j % 4
            with s.expect_error('order list: ' + name[i]):
                OrderSelector(o, bad[i] if j % 3 else list(bad[i]))
            fn = os.path.join(tlc.work(), f'c09_{os.getpid()}_{rng.integers(1 << 30)}.dat')
            if i < 2:
                np.savetxt(fn, np.c_[[1., 2.], np.array([bad[i], bad[i]])])
            else:
                rows = [w, w, w]
                rows[int(rng.integers(3))] = bad[i]
                np.savetxt(fn, np.c_[[1., 2., 3.], np.array(rows)])
            with s.expect_error('efficiency file: ' + name[i]):
                EfficiencyFile(fn, list(o))
            os.remove(fn)
            t, wave, th, dat = grid_table(rng, 3, 4, o)
            with s.expect_error('table that is not a grid'):
                if j % 2:
                    t.remove_row(int(rng.integers(len(t))))
                else:
                    a, b = rng.permutation(3)[:2]
                    r = np.arange(len(t)).reshape(3, 4)
                    r[[a, b], 1] = r[[b, a], 1]
                    t = t[r.ravel()]
                InterpolateEfficiencyTable(t)
