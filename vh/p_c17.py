"""C17: elements designed onto a Rowland torus touch it, facing as requested."""
import numpy as np
import transforms3d

from .core import Check
from .num import num, vec, mat
from . import rand

from marxs.design.rowland import (RowlandTorus, GratingArrayStructure, RectangularGrid, CircularMeshGrid,
                                  design_tilted_torus, find_radius_of_photon_shell)
from marxs.design.rowland import double_rowland_from_channel_distance, add_offset_double_rowland_channels
from marxs.optics import FlatOpticalElement

CHECK = Check('C17', assumptions=['rigid placement of the torus', 'r / R between 0.02 and 20',
                                  'for layouts, the guess for the intersection is on the side of the wanted solution',
                                  'solved points are compared to 1e-7 of the size of the torus'])
CHECK.mc('RowlandMC')


class Elem(FlatOpticalElement):
    """an element that does nothing"""


def place(rng, j, scale):
    how = j % 4
    if how == 0:
        return {}, np.eye(4)
    R = rand.rotation(rng)
    c = rng.normal(size=3) * scale * 10 ** rng.uniform(-1, 0.5)
    if how == 1:
        return {'position': list(c)}, rand.aff(c)
    if how == 2:
        return {'position': c, 'orientation': R}, rand.aff(c, R)
    return {'pos4d': rand.aff(c, R)}, rand.aff(c, R)


def torus(rng, j, lo=-1.7, hi=1.3):
    R = 10 ** rng.uniform(0, 4)
    k = int(rng.integers(4))
    r = [R, R * rng.uniform(0.9, 1.1), R * 10 ** rng.uniform(lo, 0), R * 10 ** rng.uniform(0, hi)][k]
    kw, M = place(rng, j, R)
    return RowlandTorus(R, r, **kw), {'R': num(R), 'r': num(r), 'M': mat(M)}, M


def special(rng, n):
    a = rng.uniform(-np.pi, 2 * np.pi, n)
    f = rng.random(n) < 0.35
    a[f] = rng.choice([0, np.pi / 2, np.pi, -np.pi / 2, 1.5 * np.pi, 2 * np.pi], f.sum())
    return a


@CHECK.scenario(quick=60, thorough=900, trace='RowlandTrace', chunks=4)
def surface(rec, rng, n):
    for j in range(n):
        with rec.session('points of a torus') as s:
            t, T, M = torus(rng, j)
            th, ph = special(rng, 12), special(rng, 12)
            p = t.parametric(th, ph)
            nan = bool(rng.random() < 0.3)
            local = (np.linalg.inv(M) @ p.T).T
            if rng.random() < 0.5:
                th2, ph2 = t.xyzw2parametric(p, intersectvalid=not nan)
            else:
                th2, ph2 = t.xyzw2parametric(local, transform=False, intersectvalid=not nan)
            k = np.isfinite(ph2)
            p2 = t.parametric(th2, np.where(k, ph2, 0))
            q = t.R + t.r * np.cos(th2)
            s.emit('torus', T=T, th=vec(th), ph=vec(ph), p=[vec(x) for x in p], nrm=[vec(x) for x in t.normal_parametric(th, ph)],
                   nrm2=[vec(x) for x in t.normal(p)], th2=vec(th2), ph2=vec(ph2), p2=[vec(x) for x in p2], nan=nan,
                   axis=[bool(x) for x in (q == 0)])
            x = p[:, :3] + rng.normal(size=(12, 3)) * t.r * rng.choice([0., 0.1, 1], (12, 1))
            s.emit('quart', T=T, x=[vec(y) for y in x], v=vec(t.quartic(x)), local=False)
            s.emit('quart', T=T, x=[vec(x[0])], v=[num(t.quartic(x[0], transform=False))], local=True)
            g = t.parametric_surface(th[:3], ph[:4], {})
            a, b = np.meshgrid(th[:3], ph[:4])
            s.emit('same', ok=bool(np.shape(g)[-1] == 4 and np.allclose(
                np.sort(np.reshape(g, (-1, 4)), axis=0), np.sort(np.reshape(t.parametric(a, b), (-1, 4)), axis=0),
                atol=1e-9 * t.R)))
            with s.expect_error('point off the torus'):
                off = p.copy()
                off[3, :3] += 0.05 * max(t.R, t.r) * t.normal_parametric(th, ph)[3, :3]
                t.xyzw2parametric(off)


@CHECK.scenario(quick=60, thorough=900, trace='RowlandTrace')
def solved(rec, rng, n):
    for j in range(n):
        with rec.session('line meets torus') as s:
            t, T, M = torus(rng, j, -0.7, 0.5)
            p = t.parametric(rng.uniform(-1, 1, 1), rng.uniform(-np.pi, np.pi, 1))[0]
            nrm = t.normal(p[None, :])[0]
            v = nrm[:3] + 0.6 * rand.unit(rng)
            v *= 10 ** rng.uniform(-0.3, 0.3)
            o = p[:3] + v * rng.uniform(-0.05, 0.05) * min(t.R, t.r)
            local = bool(rng.random() < 0.4)
            O, V = rand.hom(o, 1)[0], rand.hom(v, 0)[0]
            if local:
                O, V = np.linalg.inv(M) @ O, np.linalg.inv(M) @ V
            q = t.solve_quartic(O, V, transform=not local)
            s.emit('hit', T=T, o=vec(O[:3]), v=vec(V[:3]), p=vec(q[:3]), local=local)
            rad, ang = rng.uniform(0, 0.3) * min(t.R, t.r), rng.uniform(0, 2 * np.pi)
            start = (t.R + t.r) * rng.uniform(0.98, 1.02)
            q = t.xyz_from_radiusangle(rad, ang, start if j % 2 else [start * 0.99, start * 1.01])
            o = M @ np.array([0, rad * np.cos(ang), rad * np.sin(ang), 1])
            s.emit('hit', T=T, o=vec(o[:3]), v=vec((M @ np.array([1, 0, 0, 0]))[:3]), p=vec(np.ravel(q)[:3]), local=False)


def specs(rng, kw, M, size, n=None):
    """how the elements should be oriented"""
    ns = {'kind': 'inward'}
    k = int(rng.integers(4))
    if k == 1:
        f = M[:3, 3] + rng.normal(size=3) * size * 0.3
        kw['normal_spec'] = rand.weighted(rng, f)
        ns = {'kind': 'point', 'v': vec(f)}
    elif k == 2:
        f = rng.normal(size=3)
        kw['normal_spec'] = np.append(f, 0)
        ns = {'kind': 'dir', 'v': vec(f)}
    elif k == 3:
        ns = {'kind': 'list', 'v': []}
        A = rng.normal(size=(4, 4)) * [1, 1, 1, size]

        def f(xyzw):
            N = (xyzw @ A.T)[:, :3]
            N /= np.linalg.norm(N, axis=1)[:, None]
            ns['v'] = [vec(x) for x in N]
            return rand.hom(N, 0)
        kw['normal_spec'] = f
    ps = {'kind': 'axis'}
    k = int(rng.integers(4))
    if k == 1:
        f = M[:3, 3] + rng.normal(size=3) * size * 3
        kw['parallel_spec'] = rand.weighted(rng, f)
        ps = {'kind': 'point', 'v': vec(f)}
    elif k == 2:
        f = rng.normal(size=3)
        kw['parallel_spec'] = np.append(f, 0)
        ps = {'kind': 'dir', 'v': vec(f)}
    elif k == 3:
        ps = {'kind': 'list', 'v': []}

        def g(xyzw, normals):
            N = np.cross(np.asarray(normals)[:, :3], [0.3, 1, -0.5]) + [0.1, 0.2, 0.3]
            ps['v'] = [vec(x) for x in N]
            return rand.hom(N, 0)
        kw['parallel_spec'] = g
    return ns, ps


def common(rng, j, d):
    t, T, M = torus(rng, j, -0.5, 0.3)
    kw = {'rowland': t, 'd_element': [list(d(t)), np.array(d(t))][0], 'elem_class': Elem}
    ns, ps = specs(rng, kw, M, t.R + t.r)
    first = 0
    if rng.random() < 0.4:
        kw['id_num_offset'] = first = int(rng.integers(1, 1000))
    if rng.random() < 0.5:
        kw['elem_args'] = {'zoom': 1.}
    return t, T, M, kw, dict(T=T, nspec=ns, pspec=ps, first=first)


def ids(g):
    return [int(e.id_num) for e in g.elements]


def size(rng, t, k=30):
    L = min(t.r, t.R)
    return L / k * 10 ** rng.uniform(-0.6, 0.3, 2)


@CHECK.scenario(quick=60, thorough=900, trace='RowlandTrace', chunks=4)
def rectangular(rec, rng, n):
    for j in range(n):
        with rec.session('grid on a torus') as s:
            d = None

            def d_(t):
                nonlocal d
                d = size(rng, t) if d is None else d
                return d
            t, T, M, kw, f = common(rng, j, d_)
            rngs = []
            for i in range(2):
                k = int(rng.integers(4))
                c = rng.normal() * 3 * d[i]
                w = [0., rng.uniform(0, 5) * d[i], float(rng.integers(1, 5)) * d[i], rng.uniform(0, 1) * d[i]][k]
                rngs.append((c - w / 2, c + w / 2, w / d[i]))
            kw['y_range'] = list(rngs[0][:2])
            if rng.random() < 0.8:
                kw['z_range'] = list(rngs[1][:2])
            else:
                rngs[1] = (-1e-10, 1e-10, 2e-10 / d[1])
            axis = np.array([1., 0, 0])
            if rng.random() < 0.4:
                axis = axis + 0.1 * rand.unit(rng)
                kw['optimize_axis'] = np.append(M[:3, :3] @ axis, 0)
            kw['guess_distance'] = (t.r + t.R) * rng.uniform(0.99, 1.01)
            if rng.random() < 0.3 and 'optimize_axis' not in kw:
                kw.pop('guess_distance')
            g = RectangularGrid(**kw)
            # if a range is a whole number of elements, rounding decides: see which it is
            X = (np.linalg.inv(M) @ np.array([x.pos4d[:, 3] for x in g.elements]).T)[:3]
            Y = X[1:] - X[0] / axis[0] * axis[1:, None]
            ny, nz = (len(np.unique(np.round((y - y[0]) / dd * 4))) for y, dd in zip(Y, d))
            s.emit('grid', y=vec(rngs[0][:2]), z=vec(rngs[1][:2]), ny=ny, nz=nz, d=vec(d), axis=vec(axis),
                   el=[mat(x.pos4d) for x in g.elements], ids=ids(g), **f)


@CHECK.scenario(quick=60, thorough=900, trace='RowlandTrace', chunks=4)
def rings(rec, rng, n):
    for j in range(n):
        with rec.session('rings on a torus') as s:
            d = None

            def d_(t):
                nonlocal d
                d = size(rng, t, 60) if d is None else d
                return d
            t, T, M, kw, f = common(rng, j, d_)
            kb = 1 + int(j % 3 == 0)
            rad, nr = [], []
            r0 = rng.uniform(1, 5) * max(d)
            for b in range(kb):
                w = rng.uniform(0.1, 2.5) * d[0]
                rad += [r0, r0 + w]
                nr.append(int(np.ceil(w / d[0])))
                r0 += w + rng.uniform(1.5, 4) * d[0]
            kw['radius'] = rad
            single = j % 5 == 4
            f0 = [0., rng.uniform(-3, 6)][int(rng.integers(2))]
            F = [2 * np.pi, rng.uniform(0.3, 6.2)][int(rng.integers(2))]
            if single:
                kw['phi'] = [f0, [f0]][int(rng.integers(2))]
            elif F == 2 * np.pi:
                if f0 == 0 and rng.random() < 0.5:
                    pass
                else:
                    f0, F = 0., 2 * np.pi
                    kw['phi'] = [0, 2 * np.pi]
            elif rng.random() < 0.3:      # segment across the axis: second angle is smaller
                f0 = f0 % (2 * np.pi)
                kw['phi'] = [f0, (f0 + F) if f0 + F < 2 * np.pi else f0 + F - 2 * np.pi]
            else:
                kw['phi'] = [f0, f0 + F]
            na = []
            for b in range(kb):
                na.append([])
                for i in range(nr[b]):
                    r = 0.5 * (rad[2 * b] + rad[2 * b + 1]) + (i + 0.5 - nr[b] / 2) * d[0]
                    na[-1].append(1 if single else int(np.floor((r - d[0] / 2) * F / d[1])))
            if sum(map(sum, na)) == 0 or sum(map(sum, na)) > 130:
                continue
            g = GratingArrayStructure(**kw)
            s.emit('ring', rad=vec(rad), f0=num(f0), F=num(F), single=single, nr=nr, na=na, total=sum(map(sum, na)), d=vec(d),
                   el=[mat(x.pos4d) for x in g.elements], ids=ids(g), **f)


@CHECK.scenario(quick=32, thorough=500, trace='RowlandTrace', chunks=4)
def mesh(rec, rng, n):
    for j in range(n):
        with rec.session('ring filled with a mesh') as s:
            d = None

            def d_(t):
                nonlocal d
                d = size(rng, t, 60) if d is None else d
                return d
            t, T, M, kw, f = common(rng, j, d_)
            ro = rng.uniform(1, 4) * np.sqrt(d[0] * d[1])
            ri = [0., rng.uniform(0.1, 0.95) * ro][int(rng.random() < 0.75)]
            kw['radius'] = [ri, ro]
            g = CircularMeshGrid(**kw)
            s.emit('mesh', rad=vec([ri, ro]), ny=int(np.ceil(2 * ro / d[0])), d=vec(d), el=[mat(x.pos4d) for x in g.elements],
                   ids=ids(g), **f)


@CHECK.scenario(quick=24, thorough=300, trace='RowlandTrace')
def designs(rec, rng, n):
    for j in range(n):
        with rec.session('tilted torus') as s:
            f = 10 ** rng.uniform(2, 5)
            a = rng.uniform(0.001, 0.2)
            b = rng.uniform(0.01, 0.8)
            R, r, M = design_tilted_torus(f, a, b)
            s.emit('tilt', f=num(f), alpha=num(a), beta=num(b), R=num(R), r=num(r), M=mat(M))
        with rec.session('pair of channels') as s:
            dBF = [rng.uniform(100, 1000), int(rng.integers(100, 1000))][j % 2]
            f = rng.uniform(8000, 15000)
            R = f / 2 * rng.uniform(0.5, 1.5)
            g = double_rowland_from_channel_distance(dBF, R, f)
            tt = lambda t: {'R': num(t.R), 'r': num(t.r), 'M': mat(t.pos4d)}
            ch = [{'T': tt(g['rowland_central']), 'shift': vec([0, 0, 0]), 'other': num(dBF),
                   'optax': vec(g['pos_opt_ax']['1'][:3]), 'want': vec([0, -dBF / 2, 0])},
                  {'T': tt(g['rowland_central_m']), 'shift': vec([0, 0, 0]), 'other': num(-dBF),
                   'optax': vec(g['pos_opt_ax']['1m'][:3]), 'want': vec([0, dBF / 2, 0])}]
            s.emit('pair', f=num(f), R=num(R), dBF=num(dBF), ch=ch, det=[tt(g['rowland_detector'])])
            det = tt(g['rowland_detector'])
            names = ['1', '1m', '2', '2m', '3', '3m', '4m']
            off = {k: [float(x) for x in rng.normal(size=3) * 5] for k in names if rng.random() < 0.7}
            keys = list(off)
            rng.shuffle(keys)
            off = {k: off[k] for k in keys}
            if j % 4 == 0:
                off = None
                add_offset_double_rowland_channels(g)
                off = {'1': [0, -2.5, -7.5], '1m': [0, -2.5, -2.5], '2': [0, 2.5, 2.5], '2m': [0, 2.5, 7.5]}
            else:
                add_offset_double_rowland_channels(g, off)
            ch = []
            for k, o in off.items():
                sgn = 1 if 'm' in k else -1
                want = np.array([0, sgn * dBF / 2, 0]) + o
                ch.append({'T': tt(g['rowland_' + k]), 'shift': vec(want), 'other': num(-sgn * dBF),
                           'optax': vec(g['pos_opt_ax'][k][:3]), 'want': vec(want)})
            s.emit('pair', f=num(f), R=num(R), dBF=num(dBF), ch=ch, det=[det, tt(g['rowland_detector'])][1:])


@CHECK.scenario(quick=12, thorough=150, trace='RowlandTrace')
def shells(rec, rng, n):
    for j in range(n):
        with rec.session('radius of a mirror shell') as s:
            m = 40
            sh = rng.integers(0, 3, m)
            rad = 500 + 100 * sh + rng.uniform(0, 30, m)
            a = rng.uniform(0, 2 * np.pi, m)
            pos = np.stack([np.full(m, 10000.), rad * np.cos(a), rad * np.sin(a)], axis=1)
            d = -pos + rng.normal(size=(m, 3)) * 0.5
            d /= np.linalg.norm(d, axis=1)[:, None]
            p = rand.photons(rng, pos, d)
            p['mirror_shell'] = sh
            p['probability'][rng.random(m) < 0.2] = 0
            want = int(rng.integers(0, 3))
            pc = [1, 99] if j % 2 == 0 else sorted(float(x) for x in rng.uniform(0, 100, 3))
            b = p.copy()
            x = rng.uniform(2000, 9900)
            args = {} if j % 2 == 0 else {'percentile': pc}
            got = find_radius_of_photon_shell(p, want, x, **args)
            same = p.colnames == b.colnames and all(np.array_equal(p[c], b[c]) for c in p.colnames)
            s.emit('shell', pos=[vec(v) for v in pos], dir=[vec(v) for v in d], prob=vec(b['probability']), shell=[int(v) for v in sh],
                   want=want, x=num(x), pc=vec(pc), got=vec(got), unchanged=bool(same))
