"""C02: the survival probability is a product of factors in [0, 1]."""
import numpy as np
import astropy.units as u

from .core import Check
from .num import num, vec, mat
from . import rand, zoo, phot
from .p_c01 import describe, make_photons, elements, all_miss, parallels

from marxs.simulator import Sequence
from marxs.optics import (EnergyFilter, GlobalEnergyFilter, FlatGrating, CATGrating, OrderSelector, PerfectLens,
                          ThinLens, Baffle, FlatDetector, FlatOpticalElement, EfficiencyFile, FlatStack)

CHECK = Check('C02', assumptions=['products are compared to 1e-12; photons within 1e-9 of an edge are not judged'])
CHECK.mc('PhotonsMC')

CHECK.scenario(quick=220, thorough=4400, trace='PhotonsTrace', chunks=4)(elements('C02'))
CHECK.scenario(quick=44, thorough=880, trace='PhotonsTrace', chunks=2)(all_miss('C02'))
CHECK.scenario(quick=12, thorough=300, trace='PhotonsTrace')(parallels('C02'))


@CHECK.scenario(quick=110, thorough=2200, trace='PhotonsTrace', chunks=2)
def history_free(rec, rng, n):
    """the same photons with another probability (and other earlier columns) get the same factor"""
    for j in range(n):
        kind = zoo.KINDS[j % len(zoo.KINDS)]
        with rec.session(kind + ' factor') as s:
            sp = zoo.make(kind, rng)
            t = make_photons(rng, sp, 12)
            t2 = t.copy()
            t2['probability'] = rng.uniform(0.05, 1, 12)
            t2['something'] = rng.normal(size=12)
            seed = int(rng.integers(1 << 30))
            out = []
            for tab in (t, t2):
                np.random.seed(seed)
                b = phot.snapshot(tab)
                out.append((b, phot.snapshot(sp.elem(tab))))
            describe(s, 'C02', sp)
            for i in range(12):
                s.emit('pair', **{f'{x}{m + 1}': {'prob': num(out[m][w]['probability'][i])}
                                  for m in (0, 1) for w, x in ((0, 'b'), (1, 'a'))})


@CHECK.scenario(quick=120, thorough=3000, trace='PhotonsTrace', chunks=2)
def products(rec, rng, n):
    """chains of elements whose factors are known: the probability is their product"""
    for j in range(n):
        with rec.session('chain of known factors') as s:
            k = int(rng.integers(2, 7))
            R = rand.rotation(rng)
            c = rng.normal(size=3) * 10
            ph = 10
            tgt = c + rng.uniform(-1.5, 1.5, (ph, 1)) * R[:, 1] + rng.uniform(-1.5, 1.5, (ph, 1)) * R[:, 2]
            d = R[:, 0] + rng.normal(size=(ph, 3)) * 0.05
            d /= np.linalg.norm(d, axis=1)[:, None]
            t = rand.photons(rng, tgt - d * 3, d, energy=rng.uniform(0.3, 6, ph),
                             prob=rng.choice([1., 0.5, 0.25, 0.], ph) if rng.random() < 0.5 else None)
            p0 = np.array(t['probability'])
            elems, funcs = [], []
            for i in range(k):
                M = rand.aff(c + R[:, 0] * (3. * i), R, [1, rng.uniform(0.8, 1.6), rng.uniform(0.8, 1.6)])
                again = [x for x in range(i) if funcs[x][1] is None]
                if again and rng.random() < 0.5:        # the very same filter once more
                    elems.append(elems[again[0]])
                    funcs.append(funcs[again[0]])
                    continue
                w = rng.integers(9) % 8 if i else rng.choice([0, 1, 2, 2, 3, 4, 5, 6, 7])
                ab = False
                if w <= 1:
                    f = zoo.smooth_filter(rng)
                    if rng.random() < 0.25:
                        v = float(rng.choice([0., 1.]))
                        f = lambda x, v=v: np.full(np.shape(x), v)
                    e = EnergyFilter(filterfunc=f, pos4d=M)
                elif w == 2:
                    f = zoo.smooth_filter(rng)
                    e = GlobalEnergyFilter(filterfunc=lambda x, f=f: f(getattr(x, 'value', x)))
                    M = None
                elif w == 3:
                    v = rng.uniform(0.1, 1)
                    f = lambda x, v=v: np.full(np.shape(x), v)
                    G = FlatGrating if rng.random() < 0.5 else CATGrating
                    e = G(d=2e-2, order_selector=OrderSelector([int(rng.integers(-2, 3))], [v]), pos4d=M)
                elif w == 4:
                    v = rng.uniform(0.5, 1)
                    f = lambda x, v=v: np.full(np.shape(x), v ** 2)
                    e = PerfectLens(focallength=1e4, pos4d=M,
                                    reflectivity_interpolator=lambda en, a, grid, v=v: np.full(len(en), v))
                elif w == 5:
                    f = lambda x: np.ones(np.shape(x))
                    e = ThinLens(focallength=1e4, pos4d=M) if rng.random() < 0.5 else FlatDetector(
                        pixsize=0.1, ignore_pixel_warning=True, pos4d=M)
                elif w == 6:
                    f = lambda x: np.ones(np.shape(x))
                    e = Baffle(pos4d=M)
                    ab = True
                else:
                    f1, f2 = zoo.smooth_filter(rng), zoo.smooth_filter(rng)
                    f = lambda x, f1=f1, f2=f2: f1(x) * f2(x)
                    e = FlatStack(elements=[EnergyFilter, EnergyFilter],
                                  keywords=[{'filterfunc': f1}, {'filterfunc': f2}], pos4d=M)
                elems.append(e)
                funcs.append((f, M, ab))
            steps = [[] for _ in range(ph)]

            def note(i):
                f, M, ab = funcs[i]
                fv = f(np.asarray(t_now[0]['energy'], float))
                for r in range(ph):
                    steps[r].append({'all': M is None, 'absorber': ab, 'f': num(fv[r]),
                                     'surf': zoo.surf(np.eye(4) if M is None else M),
                                     'pos': vec(t_now[0]['pos'].data[r]), 'dir': vec(t_now[0]['dir'].data[r])})
            t_now = [t]
            for i, e in enumerate(elems):
                note(i)
                t_now[0] = e(t_now[0])
            # the same again as one Sequence
            for r in range(ph):
                s.emit('chain', p0=num(p0[r]), p1=num(t_now[0]['probability'][r]), steps=steps[r])


class Bad(FlatOpticalElement):
    """an element as a user may write it"""

    def __init__(self, **kw):
        self.value = kw.pop('value')
        super().__init__(**kw)

    def specific_process_photons(self, photons, intersect, interpos, intercoos):
        return {'probability': self.value[intersect]}


class BadOneByOne(FlatOpticalElement):
    output_columns = []

    def __init__(self, **kw):
        self.value = kw.pop('value')
        super().__init__(**kw)

    def process_photon(self, dir, pos, energy, polarization):
        return dir, pos, energy, polarization, self.value[int(round(energy))]


@CHECK.scenario(quick=80, thorough=2000, trace='PhotonsTrace')
def refused(rec, rng, n):
    """factors outside [0, 1] for a photon that is hit are refused, and only those"""
    for j in range(n):
        with rec.session('factors out of range') as s:
            bad = rng.choice([-0.3, 1.2, np.nan, -1e-3, 1 + 1e-3, np.inf, 57., -np.inf])
            k = 6
            where = int(rng.integers(k))
            hit = rng.random(k) < 0.6
            hit[where] = rng.random() < 0.6
            M = rand.rigid(rng)
            y = np.where(hit, rng.uniform(-0.9, 0.9, k), rng.uniform(1.2, 2, k) * rng.choice([-1, 1], k))
            pos = M[:3, 3] + M[:3, 0] * 3 + y[:, None] * M[:3, 1]
            t = rand.photons(rng, pos, np.broadcast_to(-M[:3, 0], (k, 3)).copy(), energy=np.arange(k) + 0.)
            t['serial'] = np.arange(k)
            val = rng.uniform(0, 1, k)
            val[rng.integers(k)] = rng.choice([0., 1.])
            val[where] = bad
            kind = rng.integers(5)
            f = lambda en: val[np.rint(np.asarray(getattr(en, 'value', en))).astype(int)]
            makers = [lambda: EnergyFilter(filterfunc=f, pos4d=M),
                      lambda: Bad(value=val, pos4d=M),
                      lambda: BadOneByOne(value=val, pos4d=M),
                      lambda: GlobalEnergyFilter(filterfunc=f),
                      lambda: FlatGrating(d=1e-1, pos4d=M, order_selector=lambda e, p, b: (np.zeros(len(e), int), f(e)))]
            el = makers[kind]()
            before = np.array(t['probability'])
            applies = hit[where] or kind == 3
            if applies:
                with s.expect_error(f'factor {bad}'):
                    el(t)
                s.emit('rowwise', what='the refused factor is not applied', a=num(before[where]),
                       b=num(t['probability'][where]))
            else:
                a = el(t)
                for i in range(k):
                    s.emit('chain', p0=num(before[i]), p1=num(a['probability'][i]), steps=[
                        {'all': False, 'absorber': False, 'f': num(val[i]) if i != where else num(0.), 'surf': zoo.surf(M),
                         'pos': vec(rand.hom(pos[i], 1)[0]), 'dir': vec(rand.hom(-M[:3, 0], 0)[0])}])


@CHECK.scenario(quick=40, thorough=400, trace='PhotonsTrace')
def order_tables(rec, rng, n):
    """order tables whose total is not in [0, 1] are refused, those that reach exactly one are not"""
    import os
    from . import tlc
    for j in range(n):
        with rec.session('order tables') as s:
            m = int(rng.integers(2, 60))
            p = rng.uniform(0, 1, m)
            p /= p.sum()
            M = rand.rigid(rng)
            pos = M[:3, 3] + M[:3, 0] * 3
            t = rand.photons(rng, np.broadcast_to(pos, (3, 3)), np.broadcast_to(-M[:3, 0], (3, 3)).copy())
            b = phot.snapshot(t)
            sel = [lambda: OrderSelector(np.arange(m), p), lambda: OrderSelector(np.arange(m)),
                   lambda: OrderSelector(np.arange(m), p * 0.5)][j % 3]()
            f = [1., 1., 0.5][j % 3]
            a = FlatGrating(d=1., order_selector=sel, pos4d=M)(t)
            for i in range(3):
                s.emit('chain', p0=num(b['probability'][i]), p1=num(a['probability'][i]), steps=[
                    {'all': True, 'absorber': False, 'f': num(f), 'surf': zoo.surf(M), 'pos': vec(b['pos'][i]),
                     'dir': vec(b['dir'][i])}])
            q = p.copy()
            if j % 2:
                q[0] += rng.uniform(1e-3, 1)
            else:
                q[0] = -rng.uniform(1e-3, 0.5)
            with s.expect_error('order list'):
                OrderSelector(np.arange(m), q)
            fn = os.path.join(tlc.work(), f'eff_{rng.integers(1 << 30)}.dat')
            dat = np.vstack([np.r_[0.5, p], np.r_[3., q], np.r_[4., p * 0.3]])
            np.savetxt(fn, dat)
            t = rand.photons(rng, np.broadcast_to(pos, (3, 3)), np.broadcast_to(-M[:3, 0], (3, 3)).copy(), energy=3.)
            with s.expect_error('efficiency file'):
                FlatGrating(d=1., order_selector=EfficiencyFile(fn, np.arange(m)), pos4d=M)(t)
            with s.expect_error('number of orders'):
                EfficiencyFile(fn, np.arange(m + 1))
            os.remove(fn)
