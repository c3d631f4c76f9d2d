"""C15: apertures fill exactly their openings, evenly, and only those."""
import numpy as np
import astropy.units as u
import transforms3d

from .core import Check
from .num import num, vec, mat
from . import rand

from marxs.optics import RectangleAperture, CircleAperture, MultiAperture

CHECK = Check('C15', assumptions=['random numbers are judged by frequencies within six standard deviations',
                                  'openings do not overlap, edges at right angles',
                                  'pre- and postprocessing steps of a MultiAperture only look at photons'])
CHECK.mc('AperturesMC')


def place(rng, j, square):
    """placement as arguments of an element; returns them and the matrix they stand for"""
    z = 10 ** rng.uniform(-1, 3, 3)
    if square:
        z[2] = z[1]
    if rng.random() < 0.3:
        z[:] = z[1]
    c = rng.normal(size=3) * 10 ** rng.uniform(-1, 3.5)
    R = [np.eye(3), rand.rotation(rng), transforms3d.axangles.axangle2mat([0, 1, 0], np.pi / 2)][[0, 1, 1, 2][j % 4]]
    if rng.random() < 0.2:
        c[:] = 0
    M = rand.aff(c, R, z)
    if rng.random() < 0.3:
        return {'pos4d': M.copy()}, M
    kw = {'zoom': float(z[0]) if np.all(z == z[0]) else list(z)}
    if np.any(c != 0) or rng.random() < 0.5:
        kw['position'] = list(c)
    if not np.allclose(R, np.eye(3)):
        kw['orientation'] = R
    return kw, M


def opening(rng, j, kind=None):
    kind = kind or ['rect', 'ring'][j % 2]
    kw, M = place(rng, int(rng.integers(4)), kind == 'ring')
    o = {'shape': kind, 'M': mat(M), 'rho': num(0), 'f0': num(0), 'f1': num(0)}
    if kind == 'rect':
        return RectangleAperture, kw, o, M
    ro = np.linalg.norm(M[:3, 1])
    rho = [0., rng.uniform(0.01, 0.99), rng.uniform(0.9, 0.999)][int(rng.integers(3))]
    if rho or rng.random() < 0.3:
        kw['r_inner'] = rho * ro
    f0, f1 = 0., 2 * np.pi
    how = int(rng.integers(5))
    if how == 1:
        f0 = rng.uniform(-6, 3)
        f1 = f0 + rng.uniform(0.02, 6)
    elif how == 2:
        f0, f1 = -np.pi, np.pi
    elif how == 3:
        f0 = -rng.uniform(0.1, 3)
        f1 = rng.uniform(0.1, 3)
    elif how == 4:
        f1 = rng.uniform(0.05, 6.2)
    if how or rng.random() < 0.3:
        kw['phi'] = [f0, f1]
    o.update(rho=num(kw.get('r_inner', 0) / ro), f0=num(f0), f1=num(f1))
    return CircleAperture, kw, o, M


def beam(rng, n, M, how):
    """photons with a direction, towards the front of an opening"""
    x = M[:3, 0] / np.linalg.norm(M[:3, 0])
    if how == 0:
        d = np.tile(-x, (n, 1))
    elif how == 1:
        one = rand.unit(rng)
        d = np.tile(one, (n, 1))
    elif how == 2:
        d = -x + 0.3 * rand.unit(rng, n)
    else:
        d = rand.unit(rng, n)
    d = d / np.linalg.norm(d, axis=1)[:, None]
    t = rand.photons(rng, rng.normal(size=(n, 3)) * 10, d)
    t['time'] = np.arange(n) * 0.1
    t['polangle'] = rng.uniform(0, 6, n)
    t['ra'] = rng.uniform(0, 360, n)
    return t


def others(t, cols):
    return [[vec(t[c][i]) for c in cols] for i in range(len(t))]


def passed(s, rng, ap, t, o, ids, idcol, stat, share=False, hit=None):
    n = len(t)
    cols = [c for c in t.colnames if c not in ('pos', 'dir', 'probability', 'y', 'z', idcol)]
    before = {'dir': [vec(x) for x in t['dir']], 'prob': vec(t['probability']), 'oth': others(t, cols),
              'pos': [vec(x) for x in t['pos']] if 'pos' in t.colnames else [[]] * n}
    if hit is None:
        p = ap(t)
        hit = np.ones(n, bool)
    else:
        p = ap.process_photons(t, hit, t['pos'], np.zeros((n, 2)))
    after = {'dir': [vec(x) for x in p['dir']], 'prob': vec(p['probability']), 'oth': others(p, cols),
             'pos': [vec(x) for x in p['pos']]}
    idv = [int(x) for x in p[idcol]] if idcol in p.colnames else [ids[0] if idcol is None else -99] * n
    yz = [vec([p['y'][i], p['z'][i]]) for i in range(n)] if 'y' in p.colnames else [[[9], [9]]] * n
    s.emit('ap', o=o, ids=ids, before=before, after=after, id=idv, yz=yz, hit=[bool(h) for h in hit], stat=bool(stat),
           share=bool(share))
    return p


def area(s, ap, parts, o):
    mm2 = lambda a: num(float(u.Quantity(a).to_value(u.mm ** 2)))
    s.emit('area', o=o, part=[mm2(x.area) for x in parts], total=mm2(ap.area))


@CHECK.scenario(quick=48, thorough=700, trace='AperturesTrace', chunks=4)
def single(rec, rng, n):
    for j in range(n):
        with rec.session('one opening') as s:
            cls, kw, o, M = opening(rng, j)
            idcol, ids = None, [0]
            if rng.random() < 0.4:
                idcol, ids = 'slit', [int(rng.integers(0, 50))]
                kw.update(id_col=idcol, id_num=ids[0])
            ap = cls(**kw)
            area(s, ap, [ap], [o])
            for rep in range(2):
                m = 300 if rep == 0 else int(rng.integers(0, 6))
                t = beam(rng, m, M, int(rng.integers(4)))
                if rng.random() < 0.7:
                    t.remove_column('pos')
                passed(s, rng, ap, t, [o], ids, idcol, rep == 0)


@CHECK.scenario(quick=12, thorough=150, trace='AperturesTrace')
def selected(rec, rng, n):
    """only some photons are meant for this aperture"""
    for j in range(n):
        with rec.session('one opening, some photons') as s:
            cls, kw, o, M = opening(rng, j)
            ap = cls(**kw)
            t = beam(rng, 40, M, int(rng.integers(4)))
            passed(s, rng, ap, t, [o], [0], None, False, hit=rng.random(40) < [0.5, 0.1, 0.9][j % 3])


@CHECK.scenario(quick=24, thorough=400, trace='AperturesTrace', chunks=4)
def several(rec, rng, n):
    for j in range(n):
        with rec.session('several openings') as s:
            k = [2, 3, 1, 5][j % 4]
            els, os, Ms = [], [], []
            # sizes alike, so that every opening gets photons
            for i in range(k):
                cls, kw, o, M = opening(rng, int(rng.integers(2)))
                f = 10 ** rng.uniform(0, 0.6) / np.linalg.norm(M[:3, 1])
                M = M @ np.diag([f, f, f * 1., 1])
                if cls is RectangleAperture:
                    M[:3, 2] *= 10 ** rng.uniform(0, 0.6) * np.linalg.norm(M[:3, 1]) / np.linalg.norm(M[:3, 2])
                for x in ('zoom', 'position', 'orientation', 'pos4d'):
                    kw.pop(x, None)
                if 'r_inner' in kw:
                    kw['r_inner'] *= f
                o['M'] = mat(M)
                els.append(cls(pos4d=M.copy(), **kw))
                os.append(o)
                Ms.append(M)
            kw = {}
            off = 0
            idcol = 'aperture'
            if rng.random() < 0.5:
                kw['id_num_offset'] = off = int(rng.integers(1, 2000))
            if rng.random() < 0.5:
                kw['id_col'] = idcol = 'xou'
            seen = []
            pre, post = int(rng.integers(0, 3)), int(rng.integers(0, 2))
            kw['preprocess_steps'] = [lambda p: seen.append('pre')] * pre
            kw['postprocess_steps'] = [lambda p: seen.append('post')] * post
            ap = MultiAperture(elements=els, **kw)
            area(s, ap, els, os)
            for rep in range(2):
                m = 500 if rep == 0 else int(rng.integers(0, 6))
                t = beam(rng, m, Ms[0], int(rng.integers(4)))
                if rng.random() < 0.7:
                    t.remove_column('pos')
                del seen[:]
                passed(s, rng, ap, t, os, [off + i for i in range(k)], idcol, rep == 0, share=True)
                if pre + post:
                    s.emit('steps', seq=list(seen), n=k, pre=pre, post=post)


@CHECK.scenario(quick=12, thorough=60, trace='AperturesTrace')
def refused(rec, rng, n):
    for j in range(n):
        with rec.session('impossible opening') as s:
            r = rng.uniform(1, 100)
            with s.expect_error('impossible opening'):
                if j % 5 == 0:
                    CircleAperture(zoom=r, r_inner=r * rng.uniform(1.001, 3))
                elif j % 5 == 1:
                    CircleAperture(zoom=[1, r, r * rng.choice([rng.uniform(1.01, 3), rng.uniform(0.3, 0.99)])])
                elif j % 5 == 2:
                    a = rng.uniform(-3, 3)
                    CircleAperture(zoom=r, phi=[a, a - rng.uniform(0.01, 3)])
                elif j % 5 == 3:
                    a = rng.uniform(-6, 0)
                    CircleAperture(zoom=r, phi=[a, a + 2 * np.pi + rng.uniform(0.01, 3)])
                else:
                    CircleAperture(zoom=r, phi=[0, rng.uniform(11, 360)])
