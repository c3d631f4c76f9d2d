"""C27: critical-angle grating stacks."""
import numpy as np
import astropy.units as u
from astropy.table import Table

from .core import Check
from .num import num, vec, mat
from . import rand, zoo, phot
from .p_c24 import aimed, place
from .p_c08 import Selector

from marxs.optics import FlatStack, OrderSelector
from marxs.simulator import Parallel
from marxs.missions.mitsnl import catgrating as cg
from marxs.missions.mitsnl import tolerances as ct

CHECK = Check('C27', assumptions=[
    'directions compared to 5e-9 (the code uses an older value of h*c, relative difference 4e-8), survival factors to 1e-5',
    'orders within 1e-8 of grazing or of the normal are not judged',
    'coarse support: the opening law of the class (hexagonal cells of the given height, shadow proportional to the sine) is taken as given'])
CHECK.mc('CatStackMC')
CHECK.mc('CatStackMC', 'CatStackMC_big.cfg', quick=False)

TAB_E = np.asarray(cg.l1transtab['energy'].to(u.keV, equivalencies=u.spectral()))
TAB_T = np.asarray(cg.l1transtab['transmission'], float)
SORT = np.argsort(TAB_E)
TAB_E, TAB_T = TAB_E[SORT], TAB_T[SORT]
LENS = [u.mm, u.um, u.cm, u.nm]
NAMES = {'membrane': cg.NonParallelCATGrating, 'quality': cg.QualityFactor, 'fine': cg.L1, 'coarse': cg.L2Abs,
         'broaden': cg.L2Diffraction}


def length(rng, x):
    q = (x * u.mm).to(LENS[int(rng.integers(len(LENS)))])
    return q, float(q.to(u.mm).value)


def dims(rng, lo, hi, dlo, dhi, share=0.6):
    p, pv = length(rng, 10 ** rng.uniform(lo, hi))
    w, wv = length(rng, pv * rng.uniform(0.01, share))
    d, dv = length(rng, 10 ** rng.uniform(dlo, dhi))
    return {'period': p, 'barwidth': w, 'bardepth': d}, {'period': num(pv), 'width': num(wv), 'depth': num(dv)}


def shipped(d):
    return d, {'period': num(d['period'].to(u.mm).value), 'width': num(d['barwidth'].to(u.mm).value),
               'depth': num(d['bardepth'].to(u.mm).value)}


class NoZero(Selector):
    def __call__(self, energy, pol, blaze):
        m, p = super().__call__(energy, pol, blaze)
        m[m == 0] = 1 + self.mmax // 2
        self.calls[-1] = self.calls[-1][:2] + (m.copy(), p.copy())
        return m, p


class Remember(OrderSelector):
    """a table of the library that remembers what it returned"""
    def __init__(self, sel):
        super().__init__(sel.orderlist, sel.p)
        self.calls = []

    def __call__(self, energy, pol, blaze):
        m, p = super().__call__(energy, pol, blaze)
        self.calls.append((np.array(energy), np.array(blaze), np.array(m), np.array(p)))
        return m, p


def energies(rng, m):
    ok = np.nonzero((TAB_T[:-1] > 1.1e-11) & (TAB_T[1:] > 1.1e-11))[0]
    i = ok[rng.integers(0, len(ok), m)]
    return TAB_E[i] + rng.uniform(0, 1, m) * (TAB_E[i + 1] - TAB_E[i])


def cell(en):
    i = int(np.clip(np.searchsorted(TAB_E, en, side='right') - 1, 0, len(TAB_E) - 2))
    return {'t0': num(TAB_T[i]), 't1': num(TAB_T[i + 1])}


def build(rng, j):
    """a stack, as shipped or assembled by hand from some of the layers in some order"""
    M = place(rng)
    g = [0., rng.uniform(-np.pi, np.pi), np.pi / 2, -0.3][int(rng.integers(4))]
    d = float(10 ** rng.uniform(-3.8, -2.5)) if j % 3 else cg.d
    l1, f1 = dims(rng, -3.2, -2, -3.5, -2) if j % 4 else shipped(cg.l1_dims)
    l2, f2 = dims(rng, -2.5, 0.2, -4, -3.2, 0.5) if j % 4 else shipped(cg.l2_dims)
    s, sv = length(rng, 10 ** rng.uniform(-4, -2))
    dq, dqv = length(rng, sv * 10 ** rng.uniform(0.7, 2.5))
    q = {'d': dq, 'sigma': s}
    if j % 4 == 0:
        q, sv, dqv = cg.qualityfactor, 0.00175, 0.2
    mem = Selector(rng, int(rng.integers(0, 9)))
    bar = [NoZero(rng, int(rng.integers(1, 5))), Remember(cg.l1_order_selector)][int(j % 7 == 6)]
    bc = bm = 0.
    if j % 2:
        layers = ['membrane', 'quality', 'fine', 'coarse', 'broaden']
        kw = dict(order_selector=mem, l1_order_selector=bar, pos4d=M.copy())
        if g or rng.random() < 0.5:
            kw['groove_angle'] = g
        if j % 3:
            kw['d'] = d
        if j % 4:
            kw.update(l1_dims=l1, l2_dims=l2, qualityfactor=q)
        st = cg.CATL1L2Stack(**kw)
        name = 'full stack'
        if rng.random() < 0.5:
            bc, bm = rng.uniform(-0.1, 0.1), rng.uniform(-1e-2, 1e-2)
            st.elements[0].blaze_center, st.elements[0].d_blaze_mm = bc, bm
    else:
        layers = list(rng.permutation([x for x in NAMES if x != 'broaden']))[:int(rng.integers(1, 5))]
        if rng.random() < 0.4:
            layers.append('broaden')
        if rng.random() < 0.5:
            bc, bm = rng.uniform(-0.1, 0.1), rng.uniform(-1e-2, 1e-2)
        kws = {'membrane': dict(d=d, order_selector=mem, groove_angle=g, blaze_center=bc, d_blaze_mm=bm),
               'quality': dict(qualityfactor=q), 'fine': dict(l1_dims=l1, order_selector=bar, groove_angle=np.pi / 2 + g),
               'coarse': dict(l2_dims=l2), 'broaden': dict(l2_dims=l2)}
        if len(layers) == 1 and rng.random() < 0.5:
            st = NAMES[layers[0]](pos4d=M.copy(), **kws[layers[0]])
        else:
            st = FlatStack(pos4d=M.copy(), elements=[NAMES[x] for x in layers], keywords=[kws[x] for x in layers])
        name = 'some layers'
    first = layers.index('membrane') < (layers.index('fine') if 'fine' in layers else 9) if 'membrane' in layers else True
    ev = dict(surf=zoo.surf(M), ca=num(np.cos(g)), sa=num(np.sin(g)), d=num(d), q=num(sv / dqv), l1=f1, l2=f2,
              layers=[str(x) for x in layers], bc=num(bc), bm=num(bm), name=name, first=bool(first))
    return M, st, mem, bar, ev


@CHECK.scenario(quick=160, thorough=4000, trace='CatStackTrace', chunks=4)
def stacks(rec, rng, n):
    for j in range(n):
        with rec.session('photons through a stack') as s:
            M, st, mem, bar, ev = build(rng, j)
            s.emit('stack', **ev)
            L = ev['layers']
            nrm = M[:3, 0] / np.linalg.norm(M[:3, 0])
            for rep in range(2):
                m = 6
                pos, d, hit, ishit = aimed(rng, M, m)
                if rng.random() < 0.6:
                    d = nrm * rng.choice([-1, 1]) + rng.normal(size=(m, 3)) * 0.03
                    d /= np.linalg.norm(d, axis=1)[:, None]
                pos = hit - rng.uniform(0.1, 5, m)[:, None] * d
                t = rand.photons(rng, pos, d, energy=energies(rng, m))
                if 'membrane' not in L or L[0] != 'membrane':
                    t['order'] = rng.integers(-5, 6, m).astype(float)
                b = phot.snapshot(t)
                mem.calls.clear()
                bar.calls.clear()
                t = st(t)
                a = phot.snapshot(t)
                hitno = 0
                for i in range(m):
                    if not ishit[i]:
                        s.emit('miss', b=phot.row(b, i, []), a=phot.row(a, i, []))
                        continue
                    o = {'sel': {'k': 0}, 'sel1': {'k': 0}, 'ang': num(0), 'blaze': num(0), 'm': num(0), 'm1': num(0),
                         'm0': num(b['order'][i] if 'order' in b else 0)}
                    for lay, sel, key in (('membrane', mem, 'sel'), ('fine', bar, 'sel1')):
                        if lay in L:
                            en, bl, mm, pp = (np.atleast_1d(x) for x in sel.calls[-1])
                            o[key] = {'en': num(en[hitno]), 'blaze': num(bl[hitno]), 'm': num(mm[hitno]), 'p': num(pp[hitno])}
                    o['m'] = num(a['order'][i]) if 'order' in a else num(0)
                    if 'membrane' in L:
                        o['blaze'] = num(a['blaze'][i])
                    if 'fine' in L:
                        o['m1'] = num(a['order_L1'][i])
                    if 'broaden' in L:
                        o['ang'] = num(a['L2Diffraction'][i])
                    s.emit('photon', b=phot.row(b, i, []), a=phot.row(a, i, []), cell=cell(b['energy'][i]), **o)
                    hitno += 1


@CHECK.scenario(quick=12, thorough=120, trace='CatStackTrace', chunks=2)
def shares(rec, rng, n):
    """how often photons go through bars, how far they are scattered"""
    for j in range(n):
        with rec.session('many photons through a stack') as s:
            M, st, mem, bar, ev = build(rng, 2 * j + 1)
            if not isinstance(bar, NoZero):
                bar = NoZero(rng, 3)
                st.elements[2].order_selector = bar
            s.emit('stack', **ev)
            m = 1500
            yz = rng.uniform(-0.9, 0.9, (m, 2))
            hit = (M @ np.column_stack([np.zeros(m), yz, np.ones(m)]).T).T[:, :3]
            nrm = M[:3, 0] / np.linalg.norm(M[:3, 0])
            d = nrm + rng.normal(size=(m, 3)) * 0.02
            d /= np.linalg.norm(d, axis=1)[:, None]
            t = rand.photons(rng, hit - d, d, energy=energies(rng, m))
            en = np.array(t['energy'])
            t = st(t)
            s.emit('bars', m1=[int(x) for x in t['order_L1']])
            s.emit('broad', ang=[num(x) for x in np.asarray(t['L2Diffraction'])[:500]], en=[num(x) for x in en[:500]])


class Sure(Selector):
    """some order, zero included, without a loss"""
    def __call__(self, energy, pol, blaze):
        m, p = super().__call__(energy, pol, blaze)
        if self.often:
            m[self.rng.random(len(m)) < 0.8] = 0
        p[:] = 1.
        self.calls[-1] = self.calls[-1][:2] + (m.copy(), p.copy())
        return m, p


@CHECK.scenario(quick=8, thorough=80, trace='CatStackTrace')
def bars_and_orders(rec, rng, n):
    """whether a photon meets a bar has nothing to do with its order, energy or number in the list"""
    for j in range(n):
        with rec.session('bars of the fine support') as s:
            M = place(rng)
            sel = Sure(rng, int(rng.integers(1, 4)))
            sel.often = bool(j % 2)
            l1, f1 = dims(rng, -3.2, -2, -3.2, -2, 0.9)
            l2, f2 = shipped(cg.l2_dims)
            e = cg.L1(l1_dims=l1, order_selector=sel, pos4d=M.copy())
            s.emit('stack', surf=zoo.surf(M), ca=num(1), sa=num(0), d=num(1e-4), q=num(.001), l1=f1, l2=f2, layers=['fine'],
                   bc=num(0), bm=num(0), name='fine support', first=True)
            m = 1000
            yz = rng.uniform(-0.9, 0.9, (m, 2))
            out = rng.random(m) < 0.3
            yz[out] = 1.5
            hit = (M @ np.column_stack([np.zeros(m), yz, np.ones(m)]).T).T[:, :3]
            nrm = M[:3, 0] / np.linalg.norm(M[:3, 0])
            d = nrm + rng.normal(size=(m, 3)) * 0.02
            d /= np.linalg.norm(d, axis=1)[:, None]
            t = rand.photons(rng, hit - d, d, energy=np.minimum(energies(rng, m), 8.) if j % 3 else np.full(m, energies(rng, 1)[0]))
            t['probability'] = 1.
            t = e(t)
            s.emit('meet', drawn=[int(x) for x in sel.calls[-1][2]], prob=[num(x) for x in np.asarray(t['probability'])[~out]],
                   even=[bool(x % 2) for x in np.nonzero(~out)[0]])


@CHECK.scenario(quick=24, thorough=240, trace='CatStackTrace')
def perturbed(rec, rng, n):
    """order tables with randomly tilted bars"""
    for j in range(n):
        how = ['wavy', 'tophat', 'none'][j % 3]
        with rec.session('perturbed order table') as s:
            th = np.linspace(-20, 20, 5)
            wv = np.array([0.5, 1., 3., 6.])
            slope, c = rng.uniform(0.3, 1), rng.uniform(0.3, 0.5)
            tab = Table()
            tab['wave'] = np.repeat(wv, len(th)) * u.nm
            tab['theta'] = np.tile(th, len(wv)) * u.deg
            order = int(rng.integers(-6, 7))
            tab[str(order)] = c + slope * np.deg2rad(np.tile(th, len(wv)))
            w = rng.uniform(1e-4, 0.03)
            m = 500
            bl = rng.uniform(-0.1, 0.1, m)
            if how == 'wavy' or (how == 'none' and j % 2):
                sel = ct.OrderSelectorWavy(wavysigma=0 if how == 'none' else w, tab=tab)
            else:
                sel = ct.OrderSelectorTopHat(tophatwidth=0 if how == 'none' else w, tab=tab)
            o, p = sel(rng.uniform(0.3, 2, m), np.tile([0., 1, 0, 0], (m, 1)), bl.copy())
            assert set(o) == {order}
            s.emit('perturb', how=how, w=num(w), blaze=vec(bl), seen=vec((p - c) / slope))


@CHECK.scenario(quick=60, thorough=400, trace='CatStackTrace')
def facets(rec, rng, n):
    for j in range(n):
        with rec.session('holder of the facets') as s:
            m = int(rng.integers(1, 9))
            t = rand.photons(rng, rng.normal(size=(m, 3)), rand.unit(rng, m), prob=rng.uniform(0, 1, m))
            f = [int(x) for x in rng.integers(-2, 4, m)]
            has = bool(j % 4)
            if has:
                t['facet'] = f if j % 2 else np.array(f, float)
            b = vec(t['probability'])
            t = cg.catsupportbars(t)
            s.emit('holder', has=has, facet=f, b=b, a=vec(np.asarray(t['probability'])))
    for j in range(n // 4):
        with rec.session('tilted bars') as s:
            k = 60 if j % 2 else int(rng.integers(1, 6))
            base = rand.aff(rng.normal(size=3) * 10, rand.rotation(rng) if j % 3 else None)
            sel = Selector(rng, 2)
            cls, kw = [(cg.NonParallelCATGrating, {'d': 1e-3, 'order_selector': sel}),
                       (cg.CATL1L2Stack, {'order_selector': sel})][int(rng.integers(2))]
            if rng.random() < 0.5:
                kw['zoom'] = list(rng.uniform(0.5, 4, 3))
            if rng.random() < 0.5:
                kw['orientation'] = rand.rotation(rng)
            ep = [rand.aff(rng.normal(size=3) * 20, rand.rotation(rng)) for i in range(k)]
            par = Parallel(elem_class=cls, elem_pos=ep, elem_args=kw, pos4d=base)
            before = [mat(e.pos4d) for e in par.elements]
            mx = [0., rng.uniform(0.001, 0.3)][int(j % 5 > 0)]
            noise = bool(rng.random() < 0.3)
            nk = dict(dx=0.1, ry=0.01, rz=0.02) if noise else {}
            if j % 4 == 1:
                ct.wiggle_and_bar_tilt([par], max_bar_tilt=mx, **nk)
            else:
                ct.wiggle_and_bar_tilt(par, max_bar_tilt=mx, **nk)
            gr = [e if cls is cg.NonParallelCATGrating else e.elements[0] for e in par.elements]
            s.emit('tilts', n=k, max=num(mx), noise=noise, t=[num(x.blaze_center) for x in gr],
                   M=[mat(x) for x in par.elem_uncertainty], base=mat(base), inv=mat(np.linalg.inv(base)),
                   before=before, after=[mat(e.pos4d) for e in gr])
    for j in range(n // 2):
        with rec.session('impossible supports') as s:
            w, wv = length(rng, 10 ** rng.uniform(-3, 0))
            p, _ = length(rng, wv * rng.uniform(0.1, 0.99)) if j % 3 else (w, wv)
            dd = {'period': p, 'barwidth': w, 'bardepth': 1 * u.um}
            sel = Selector(rng, 1)
            what = ['L1', 'L2Abs', 'L2Diffraction', 'stack, fine', 'stack, coarse'][j % 5]
            with s.expect_error('bars wider than the period: ' + what):
                if what == 'L1':
                    cg.L1(l1_dims=dd, order_selector=sel)
                elif what == 'L2Abs':
                    cg.L2Abs(l2_dims=dd)
                elif what == 'L2Diffraction':
                    cg.L2Diffraction(l2_dims=dd)
                else:
                    cg.CATL1L2Stack(order_selector=sel, **{['l1_dims', 'l2_dims']['coarse' in what]: dd})
        with rec.session('number of gratings') as s:
            sel = Selector(rng, 1)
            two = FlatStack
            par = Parallel(elem_class=two, elem_pos=[np.eye(4)] * 2, elem_args={
                'elements': [cg.NonParallelCATGrating] * (2 * (j % 2)) + [cg.L2Abs],
                'keywords': [{'d': 1e-3, 'order_selector': sel}] * (2 * (j % 2)) + [{}]})
            with s.expect_error('tilts for elements with none or two gratings each'):
                ct.wiggle_and_bar_tilt(par, max_bar_tilt=0.1)
