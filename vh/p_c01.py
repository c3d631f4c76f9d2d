"""C01: elements act only on the photons that reach them."""
import numpy as np
import astropy.units as u

from .core import Check
from .num import num, vec, mat
from . import rand, zoo, phot

from marxs.simulator import Parallel, Sequence
from marxs.optics import FlatDetector, GlobalEnergyFilter, Baffle

CHECK = Check('C01', assumptions=['photons within 1e-9 (1e-6 for cylinders) of an edge are not judged'])
CHECK.mc('PhotonsMC')


def describe(s, want, sp):
    s.emit('element', want=want, name=sp.name, surfs=sp.surfs, absorber=sp.absorber, moves=sp.moves,
           neutral=sp.pol_neutral, composite=sp.composite, idcol=sp.idcol or '', id=num(sp.idnum if sp.idnum is not None else 0))


def make_photons(rng, sp, n, ncols=3):
    p, d = zoo.aimed(rng, sp, n)
    t = rand.photons(rng, p, d, energy=rng.uniform(*sp.en, n))
    t['serial'] = np.arange(n) * 7 + 3
    for c in list(sp.needs):
        t[c] = rng.integers(-5, 6, n).astype(float)
    if rng.random() < 0.7:
        t['earlier'] = rng.normal(size=n)
        t['earlier_id'] = rng.integers(0, 9, n)
    if sp.idcol and rng.random() < 0.3:
        t[sp.idcol] = rng.integers(100, 200, n)
    return t


def run_elem(s, sp, t, want):
    describe(s, want, sp)
    b = phot.snapshot(t)
    t2 = sp.elem(t)
    a = phot.snapshot(t2)
    kinds = phot.kinds(a)
    s.emit('table', before=[int(x) for x in b['serial']], after=[int(x) for x in a['serial']])
    n = len(a['serial'])
    if n == len(b['serial']):
        for i in range(n):
            s.emit('photon', b=phot.row(b, i), a=phot.row(a, i), kinds=kinds)
    return t2


def elements(want):
    def f(rec, rng, n):
        for j in range(n):
            kind = zoo.KINDS[j % len(zoo.KINDS)]
            with rec.session(kind) as s:
                sp = zoo.make(kind, rng)
                t = make_photons(rng, sp, 16)
                run_elem(s, sp, t, want)
    f.__name__ = 'single_elements'
    return f


CHECK.scenario(quick=132, thorough=4400, trace='PhotonsTrace', chunks=4)(elements('C01'))


def all_miss(want):
    def f(rec, rng, n):
        """nobody is hit; everybody is hit; a single photon; a second pass through the same kind"""
        for j in range(n):
            kind = zoo.KINDS[j % len(zoo.KINDS)]
            with rec.session(kind + ' nobody/everybody hit') as s:
                sp = zoo.make(kind, rng)
                t = make_photons(rng, sp, 30)
                hit = np.asarray(sp.elem.geometry.intersect(t['dir'].data, t['pos'].data)[0])
                if (~hit).any():
                    run_elem(s, sp, t[~hit], want)
                if hit.any():
                    run_elem(s, sp, t[hit], want)
                    run_elem(s, sp, t[hit][:1], want)
    f.__name__ = 'extreme_lists'
    return f


CHECK.scenario(quick=44, thorough=880, trace='PhotonsTrace', chunks=2)(all_miss('C01'))


def parallels(want):
    def f(rec, rng, n):
        """groups of detectors: each photon carries the number of the one it hit last"""
        for j in range(n):
            with rec.session('group of detectors') as s:
                k = int(rng.integers(2, 6))
                base = rand.rigid(rng)
                z = np.array([1., rng.uniform(0.5, 1.5), rng.uniform(0.5, 1.5)])
                ys = np.arange(k) * 4. - 2. * k
                start = int(rng.integers(0, 20))
                par = Parallel(elem_class=FlatDetector, elem_pos=[rand.aff((0, y, 0)) for y in ys], pos4d=base,
                               elem_args={'zoom': z, 'pixsize': 0.1, 'ignore_pixel_warning': True}, id_col='CCD_ID',
                               id_num_offset=start)
                Ms = [base @ rand.aff((0, y, 0), None, z) for y in ys]
                sp = zoo.Spec('group', par, [zoo.surf(M) for M in Ms])
                p, d = zip(*[zoo.aimed(rng, sp, 6, M=M) for M in Ms])
                t = rand.photons(rng, np.vstack(p), np.vstack(d))
                t['serial'] = np.arange(len(t))
                describe(s, want, sp)
                b = phot.snapshot(t)
                a = phot.snapshot(par(t))
                kinds = phot.kinds(a)
                s.emit('table', before=[int(x) for x in b['serial']], after=[int(x) for x in a['serial']])
                for i in range(len(t)):
                    s.emit('photon', b=phot.row(b, i), a=phot.row(a, i), kinds=kinds)
                # and each member alone decides the number: nobody else's number is given
                for m, M in enumerate(Ms):
                    sm = zoo.Spec('member', None, [zoo.surf(M)], idcol='CCD_ID', idnum=start + m)
                    describe(s, 'C01', sm)
                    sel = np.nonzero(a['CCD_ID'] == start + m)[0] if 'CCD_ID' in a else []
                    hitm = np.asarray(par.elements[m].geometry.intersect(t['dir'].data, rand.hom(b['pos'][:, :3], 1))[0])
                    s.emit('rowwise', what='members numbered in order', a=[int(x) for x in np.nonzero(hitm)[0]],
                           b=[int(x) for x in sel])
    f.__name__ = 'groups'
    return f


CHECK.scenario(quick=12, thorough=300, trace='PhotonsTrace')(parallels('C01'))


@CHECK.scenario(quick=60, thorough=1500, trace='PhotonsTrace', chunks=2)
def chains(rec, rng, n):
    """several elements one after the other in a Sequence: the recorded list after each step"""
    for j in range(n):
        kinds = [zoo.KINDS[int(i)] for i in rng.choice(len(zoo.KINDS), 3)]
        if 'multilayer mirror' in kinds or 'CAT stack' in kinds or 'L1' in kinds:
            kinds = kinds[:2]
        with rec.session('chain ' + ' > '.join(kinds)) as s:
            sps = []
            Z = rng.uniform(2, 6, 3)
            R = rand.rotation(rng)
            for i, k in enumerate(kinds):
                M = rand.aff(R[:, 0] * (-8. * i), R, Z)
                sps.append(zoo.make(k, rng, M=M))
            t = make_photons(rng, zoo.Spec('x', None, [zoo.surf(rand.aff((0, 0, 0), R, Z))],
                                           needs=('order',), angle=0.4), 10)
            for sp in sps:
                t = run_elem(s, sp, t, 'C01')


@CHECK.scenario(quick=44, thorough=900, trace='PhotonsTrace')
def independence(rec, rng, n):
    """what happens to a photon does not depend on which other photons are in the list"""
    for j in range(n):
        kind = zoo.KINDS[j % len(zoo.KINDS)]
        with rec.session(kind + ' sublist') as s:
            sp = zoo.make(kind, rng)
            if not sp.deterministic:
                continue
            t = make_photons(rng, sp, 20)
            order = rng.permutation(20)[:11]
            whole = phot.snapshot(sp.elem(t.copy()))
            part = phot.snapshot(sp.elem(t[order]))
            for i, o in enumerate(order):
                ra, rb = phot.row(part, i), phot.row(whole, o)
                # a column is only added if at least one photon is hit
                common = set(ra['cols']) & set(rb['cols'])
                for r in (ra, rb):
                    r['cols'] = {k: v for k, v in sorted(r['cols'].items()) if k in common}
                s.emit('rowwise', what='photon independent of the others in the list', a=trim(ra), b=trim(rb))


def trim(r):
    """compare to 12 digits: vectorised code may round differently for other list lengths"""
    from .num import dec
    out = []
    for k in ('pos', 'dir', 'pol'):
        out.append([num(float(f'{dec(x):.9e}')) if abs(dec(x)) > 1e-9 else [0] for x in r[k]])
    return [[[round(dec(x), 8).__repr__() for x in r[k]] for k in ('pos', 'dir', 'pol')],
            f'{dec(r["en"]):.8e}', f'{dec(r["prob"]):.8e}',
            {k: f'{dec(v):.6f}' for k, v in r['cols'].items()}]


@CHECK.scenario(quick=10, thorough=100, trace='PhotonsTrace')
def global_filter(rec, rng, n):
    """a filter without a place acts on the probability of everybody and on nothing else"""
    for j in range(n):
        with rec.session('global filter') as s:
            f = zoo.smooth_filter(rng)
            p, d = rng.normal(size=(8, 3)), rand.unit(rng, 8)
            t = rand.photons(rng, p, d)
            t['serial'] = np.arange(8)
            b = phot.snapshot(t)
            a = phot.snapshot(GlobalEnergyFilter(filterfunc=lambda x: f(getattr(x, 'value', x)))(t))
            s.emit('table', before=[int(x) for x in b['serial']], after=[int(x) for x in a['serial']])
            for i in range(8):
                s.emit('rowwise', what='global filter only changes the probability',
                       a=[vec(a['pos'][i]), vec(a['dir'][i]), vec(a['polarization'][i]), num(a['energy'][i])],
                       b=[vec(b['pos'][i]), vec(b['dir'][i]), vec(b['polarization'][i]), num(b['energy'][i])])
