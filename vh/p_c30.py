"""C30: mission models are assembled from their tables."""
import copy
import os
import re
import tempfile
import warnings

import numpy as np
import astropy.units as u
from astropy.table import Table
from astropy.utils.data import get_pkg_data_filename

from .core import Check
from .num import num, vec, mat
from . import rand, phot

from marxs.optics import OrderSelector
from marxs.missions.chandra import data as cdata
from marxs.missions.chandra import hrma_py
from marxs.missions.chandra.hess import HETG
from marxs.missions.chandra.det_acis import ACIS, ACIS_name
from marxs.missions.arcus import boom, arcus
from marxs.missions.arcus import spo as aspo
from marxs.missions.arcus import load_csv
from marxs.missions.athena import spo
from marxs.missions.lynx import lynx, mirror
from marxs.missions.AXIS import AXIS
from marxs.math.utils import xyz2zxy

CHECK = Check('C30', assumptions=[
    'rays within 1e-5 of the radius of a strut from its edge, or passing through both of its ends, are not judged',
    'columns of the shipped grating table are printed with 6 digits, corners of the detector chips with 3 decimals (0.04 pixel); comparisons allow for that',
    'dimensions of a boom are consistent (the diagonal is the diagonal of the bay)'])
CHECK.mc('MissionsMC')
CHECK.mc('MissionsMC', 'MissionsMC_big.cfg', quick=False)

HETG_FILE = os.path.join(os.path.dirname(os.path.abspath(cdata.__file__)), 'HESSdesign.rdb')


def hetg_rows():
    rows, names = [], None
    for line in open(HETG_FILE):
        if line.startswith('#') or not line.strip():
            continue
        f = line.rstrip('\n').split('\t')
        if names is None:
            names = f
        elif set(x.strip() for x in f) <= {'S', 'N'}:
            continue
        else:
            rows.append({n: (x.strip() if n == 'hessloc' else float(x)) for n, x in zip(names, f)})
    return rows


def triple(r, s):
    return vec([r[a + s] for a in 'xyz'])


def table(pos, dirs, energy, rng=None):
    rng = rng or np.random.default_rng(0)
    return rand.photons(rng, pos, dirs, energy=energy)


def same(a, b, but=('probability',)):
    """columns present before are unchanged"""
    return all(np.array_equal(a[n], b[n], equal_nan=a[n].dtype.kind == 'f') for n in a if n not in but)


@CHECK.scenario(quick=1, thorough=6, trace='MissionsTrace', chunks=1)
def hetg(rec, rng, n):
    rows = hetg_rows()
    for j in range(n):
        with rec.session(f'HETG {j}') as s:
            h = HETG()
            s.emit('rows', what='facets', n=len(h.elements), rows=len(rows), first=0, ids=[num(e.id_num) for e in h.elements])
            ray = np.tile([-1., 0, 0], (len(rows), 1)) + rng.normal(size=(len(rows), 3)) * (0.01 if j else 1e-4)
            ray /= np.linalg.norm(ray, axis=1)[:, None]
            c = np.array([[r['xc'] + (339.909 - 1.7) * 25.4, r['yc'], r['zc']] for r in rows])
            ph = table(c - 5 * ray, ray, rng.uniform(0.4, 7., len(rows)), rng)
            for e in h.elements:
                e.order_selector = OrderSelector([-3, -1, 1, 2])
            b = phot.snapshot(ph)
            ph = h(ph)
            for i, r in enumerate(rows):
                e = h.elements[i]
                s.emit('facet', row={'ring': int(r['hessloc'][0]), 'name': r['hessloc'], 'i': i, 'c': triple(r, 'c'), 'u': triple(r, 'u'),
                                     'x': triple(r, 'uxf'), 'y': triple(r, 'uyf'), 'ul': triple(r, 'ul'), 'ud': triple(r, 'ud')},
                       M=mat(e.pos4d), name=str(e.name), id=num(ph['facet'][i]), m=num(ph['order'][i]),
                       en=num(b['energy'][i]), p=vec(b['dir'][i, :3]), q=vec(ph['dir'][i, :3]))


@CHECK.scenario(quick=4, thorough=30, trace='MissionsTrace', chunks=2)
def modules(rec, rng, n):
    for j in range(n):
        if j % 4 == 0:
            g = spo.spogeom
            pick = np.sort(rng.choice(len(g), 25, replace=False))
            g = g[pick]
        else:
            m = int(rng.integers(2, 12))
            g = Table({'clocking_angle': np.sort(rng.uniform(-np.pi, np.pi, m)) if j % 3 else np.rad2deg(np.linspace(-3, 3, m)),
                       'inner_radius': rng.uniform(300, 900, m), 'primary_length': rng.uniform(20, 60, m),
                       'azwidth': rng.uniform(30, 100, m), 'plate_height': rng.uniform(0.5, 0.8, m),
                       'focal_length': rng.uniform(9000, 13000, m)})
            g['outer_radius'] = g['inner_radius'] + rng.uniform(20, 30, m)
            g['clocking_angle'].unit = u.rad if j % 3 else u.deg
            g['r_mid'] = (g['inner_radius'] + g['outer_radius']) / 2
        ang = np.asarray(g['clocking_angle'], float) * (np.pi / 180 if g['clocking_angle'].unit == u.deg else 1.)
        with rec.session(f'modules {j}') as s:
            p4 = spo.spogeom2pos4d(g)
            foc = np.asarray(g['focal_length'], float) if 'focal_length' in g.colnames else rng.uniform(9e3, 13e3, len(g))
            t = Table({'r_mid': g['r_mid'], 'focal_length': foc})
            for i, r in enumerate(g):
                s.emit('module', M=mat(p4[i]), row={'rmid': num((r['inner_radius'] + r['outer_radius']) / 2), 'ang': num(ang[i]),
                       'len': num(r['primary_length']), 'hy': num(r['azwidth'] / 2), 'hz': num(36 * r['plate_height'] / 2)})
            off = [0, 1000, 11000][j % 3]
            h = float(rng.uniform(9000, 12000))
            mir = spo.SPOChannelMirror(position=[0, 0, h], spo_pos4d=[xyz2zxy @ p for p in p4], spo_geom=t,
                                       reflectivity_interpolator=lambda e, a, grid: np.ones_like(e), id_num_offset=off)
            s.emit('rows', what='modules', n=len(mir.elements), rows=len(g), first=off, ids=[num(e.id_num) for e in mir.elements])
            # alone: other modules may overlap in a random table
            ray = np.tile([0, 0, -1.], (len(g), 1)) + np.c_[rng.normal(size=(len(g), 2)) * 1e-4, np.zeros(len(g))]
            ray /= np.linalg.norm(ray, axis=1)[:, None]
            for i, r in enumerate(g):
                rm = (r['inner_radius'] + r['outer_radius']) / 2
                # y -> x, z -> y of the matrices above
                x = np.array([rm * np.sin(ang[i]), rm * np.cos(ang[i]), h])
                d = np.hypot(*(np.array([(q['inner_radius'] + q['outer_radius']) / 2 * np.array([np.sin(a), np.cos(a)])
                                         for q, a in zip(g, ang)]) - x[:2]).T)
                d[i] = 1e9
                if d.min() < 120:
                    continue
                ph = table((x - 300 * ray[i])[None], ray[i][None], 1., rng)
                ph = mir(ph)
                s.emit('lens', p=vec(ray[i]), q=vec(ph['dir'][0, :3]), x=vec(x), axis=vec([0, 0, h]), f=num(foc[i]),
                       id=num(ph['xou'][0]), i=int(i + off))


@CHECK.scenario(quick=16, thorough=160, trace='MissionsTrace', chunks=4)
def channels(rec, rng, n):
    for j in range(n):
        with rec.session(f'channel {j}') as s:
            m = int(rng.integers(3, 30))
            pos = np.c_[rng.uniform(-500, 500, (m, 2)), np.full(m, 13000.)]
            d = np.array([0, 0, -1.]) + rng.normal(size=(m, 3)) * 1e-3
            d /= np.linalg.norm(d, axis=1)[:, None]
            ph = table(pos, d, rng.uniform(0.3, 1.5, m), rng)
            lo = int(rng.choice([0, 1000, 10000]))
            hi = lo + int(rng.choice([1, 1000]))
            xou = rng.choice([-1, 0, lo - 1, lo, lo + 1, hi - 1, hi, hi + 1, 999], m)
            ph['xou'] = xou
            b = phot.snapshot(ph)
            sc = spo.ScatterPerChannel(position=[0, 0, 12000], min_id=lo, max_id=hi, inplanescatter=1e-5 * u.rad,
                                       perpplanescatter=1e-5 * u.rad, orientation=xyz2zxy[:3, :3])
            a = phot.snapshot(sc(ph))
            s.emit('range', lo=num(lo), hi=num(hi), id=vec(xou), turned=[bool(x) for x in np.any(a['dir'] != b['dir'], axis=1)],
                   stay=bool(np.array_equal(a['pos'], b['pos']) and same(b, a, ('dir', 'polarization'))))
            ph['probability'] = b['probability']
            f = phot.snapshot(spo.spomounting(ph))
            s.emit('frame', id=vec(xou), p0=vec(b['probability']), p1=vec(f['probability']))
            for what, el, tab in [('open fraction of the optics', spo.geometricthroughput, None), ('tabulated loss of the optics', spo.willingaleloss, spo.tab)]:
                if tab is not None:
                    e = np.asarray(tab['energy'].to(u.keV, equivalencies=u.spectral()), float)
                    y = np.asarray(tab[tab.colnames[1]], float)
                    o = np.argsort(e)
                    e, y = e[o], y[o]
                    ph['energy'] = rng.uniform(e[0], e[-1], m)
                b = phot.snapshot(ph)
                a = phot.snapshot(el(ph))
                for i in range(min(m, 6)):
                    en = b['energy'][i]
                    if tab is None:
                        q = [en, en, 0.92609, 0.92609]
                    else:
                        k = int(np.clip(np.searchsorted(e, en) - 1, 0, len(e) - 2))
                        q = [e[k], e[k + 1], y[k], y[k + 1]]
                    s.emit('factor', what=what, en=num(en), e0=num(q[0]), e1=num(q[1]), f0=num(q[2]), f1=num(q[3]),
                           p0=num(b['probability'][i]), p1=num(a['probability'][i]), same=same(b, a))
            # rectangle around the modules
            k = int(rng.integers(1, 8))
            p4 = [rand.aff(rng.uniform(-600, 600, 3), rand.rotation(rng), rng.uniform(1, 30, 3)) for _ in range(k)]
            geo = Table({'azwidth': rng.uniform(10, 90, k), 'inner_radius': rng.uniform(100, 200, k)})
            geo['outer_radius'] = geo['inner_radius'] + rng.uniform(5, 90, k)
            conf = {'spo_pos4d': p4, 'spo_geom': geo}
            az, rs = rng.uniform(0, 2, 2)
            c = np.array([p[:2, 3] for p in p4])
            s.emit('cover', mid=num(aspo.rmid_spo(conf)), zoom=vec(aspo.zoom_to_cover_all_spos(conf, az, rs)), lo=vec(c.min(0)), hi=vec(c.max(0)),
                   az=num(az), rs=num(rs), maxaz=num(max(geo['azwidth'])), maxr=num(max(geo['outer_radius'] - geo['inner_radius'])))


@CHECK.scenario(quick=16, thorough=200, trace='MissionsTrace', chunks=4)
def booms(rec, rng, n):
    for j in range(n):
        cls, sides = ((boom.ThreeSidedBoom, 3), (boom.FourSidedBoom, 4))[j % 2]
        if j % 3 == 0:
            dims = {'n_bays': 2 if j % 2 else 1}
            o = {'longeron': 1080., 'batten': 1600., 'dlongeron': 10.2, 'dbatten': 8., 'ddiag': 2.} if sides == 3 else \
                {'longeron': 1350.5, 'batten': 1308., 'dlongeron': 10.2, 'dbatten': 8.43, 'ddiag': 1.85}
            o['diag'] = float(np.hypot(o['longeron'], o['batten']))
        else:
            o = {'longeron': rng.uniform(100, 1500), 'batten': rng.uniform(100, 1500), 'dlongeron': rng.uniform(1, 20),
                 'dbatten': rng.uniform(1, 20), 'ddiag': rng.uniform(1, 20)}
            o['diag'] = float(np.hypot(o['longeron'], o['batten']))
            first = int(rng.integers(0, 3))
            dims = {'l_longeron': o['longeron'], 'l_batten': o['batten'], 'l_diag': o['diag'], 'd_longeron': o['dlongeron'],
                    'd_batten': o['dbatten'], 'd_diag': o['ddiag'], 'n_bays': first + int(rng.integers(1, 3)), 'start_bay': first}
        a, b = dims.get('start_bay', 0), dims['n_bays']
        kw = {}
        M = np.eye(4)
        if j % 5:
            R = rand.rotation(rng)
            t = rng.normal(size=3) * 300
            M = rand.aff(t, R)
            kw = {'orientation': R, 'position': t} if j % 2 else {'pos4d': M}
        with rec.session(f'{cls.__name__} {j}') as s:
            B = cls(boom_dimensions=dict(dims), **kw)
            s.emit('boom', n=sides, d={k: num(v) for k, v in o.items()}, to=b, count=len(B.elements), inv=mat(np.linalg.inv(M)), **{'from': a})
            # aim near struts: corners of the polygon, middles, ends, anywhere
            L, W = o['longeron'], o['batten']
            rad = W / np.sqrt(3) if sides == 3 else W / np.sqrt(2)
            ph0 = 0. if sides == 3 else np.pi / 4
            m = 60
            aim = np.empty((m, 3))
            for i in range(m):
                k = int(rng.integers(sides))
                bay = int(rng.integers(a, b))
                c0, c1 = [np.array([0, rad * np.cos(ph0 + (k + q) * 2 * np.pi / sides), rad * np.sin(ph0 + (k + q) * 2 * np.pi / sides)]) for q in (0, 1)]
                x0, x1 = np.array([bay * L, 0, 0]), np.array([(bay + 1) * L, 0, 0])
                e0, e1 = [(c0 + x0, c0 + x1), (c0 + x0, c1 + x0), (c0 + x0, c1 + x1), (c1 + x0, c0 + x1)][i % 4]
                f = rng.uniform(-0.1, 1.1)
                d = [o['dlongeron'], o['dbatten'], o['ddiag'], o['ddiag']][i % 4]
                aim[i] = e0 + f * (e1 - e0) + rand.unit(rng) * d * rng.uniform(0, 1.3) / 2
            v = rand.unit(rng, m)
            pos = aim - v * rng.uniform(-0.05, 2, m)[:, None] * L
            pos, v = pos @ M[:3, :3].T + M[:3, 3], v @ M[:3, :3].T
            ph = table(pos, v, 1., rng)
            b4 = phot.snapshot(ph)
            out = phot.snapshot(B(ph))
            for i in range(m):
                s.emit('ray', pos=vec(pos[i]), dir=vec(v[i]), p0=num(b4['probability'][i]), p1=num(out['probability'][i]), hit=bool(out['hitrod'][i]),
                       same=all(np.array_equal(out[c][i], b4[c][i]) for c in b4))
            if j % 4 == 0:
                with s.expect_error('unknown dimension of a boom'):
                    cls(boom_dimensions={'l_diagonal': 3.})


@CHECK.scenario(quick=6, thorough=60, trace='MissionsTrace', chunks=3)
def shells(rec, rng, n):
    tab = [('Lynx', lynx.conf), ('AXIS', AXIS.conf)]
    for j in range(n):
        full = lynx.conf['metashellgeometry']
        eff = lynx.conf['metashelleff']
        N = len(full)
        if j % 3 == 0:
            sel = np.arange(N)
        elif j % 3 == 1:
            sel = np.sort(rng.choice(N, int(rng.integers(2, N)), replace=False))
        else:
            sel = rng.choice(N, int(rng.integers(2, N)), replace=False)
        g = full[sel]
        conf = {'metashellgeometry': g, 'metashelleff': eff, 'focallength': 10000.}
        with rec.session(f'shells {j}') as s:
            ap = mirror.MetaShellAperture(conf)
            ef = mirror.MetaShellEfficiency(conf)
            s.emit('shells', count=len(ap.elements), rows=[{'id': int(r['Metashell Serial Number']), 'in': num(r['r_inner']), 'out': num(r['r_outer'])} for r in g])
            m = 50
            e = np.asarray(eff['energy'], float)
            ph = table(np.zeros((m, 3)), np.tile([-1., 0, 0], (m, 1)), rng.uniform(e.min(), e.max(), m), rng)
            del ph['pos']
            ph = ap(ph)
            b = phot.snapshot(ph)
            a = phot.snapshot(ef(ph))
            for i in range(m):
                en = b['energy'][i]
                k = int(np.clip(np.searchsorted(e, en) - 1, 0, len(e) - 2))
                s.emit('shell', shell=num(b['shell'][i]), y=num(b['pos'][i, 1]), z=num(b['pos'][i, 2]), en=num(en), e0=num(e[k]), e1=num(e[k + 1]),
                       a0=vec([eff[str(r['Metashell Serial Number'])][k] for r in g]), a1=vec([eff[str(r['Metashell Serial Number'])][k + 1] for r in g]),
                       p0=num(b['probability'][i]), p1=num(a['probability'][i]), same=same(b, a))
        with rec.session(f'rings {j}') as s:
            if j % 2:
                name, c = tab[1]
                ap = mirror.MetaShellAperture(c)
                g = c['metashellgeometry']
                rows = [{'id': int(r['Metashell Serial Number']), 'in': num(r['r_inner']), 'out': num(r['r_outer'])} for r in g]
                col = 'shell'
            else:
                ap = hrma_py.Aperture()
                rows = [{'id': i, 'in': num(r[0]), 'out': num(r[1])} for i, r in enumerate([[598, 610], [481, 491], [424, 433], [315, 322]])]
                col = 'mirror_shell'
            s.emit('shells', count=len(ap.elements), rows=rows)
            ph = table(np.zeros((30, 3)), np.tile([-1., 0, 0], (30, 1)), 1., rng)
            del ph['pos']
            b = phot.snapshot(ap(ph))
            scale = 1.
            if j % 2:
                el = AXIS.MirrorGeometricScaling({'mirrorgeometricscaling': rng.uniform(0, 1)})
                scale, what = el.scale, 'geometric scaling of the mirror'
            else:
                el, scale, what = hrma_py.HRMA(), 0.66, 'throughput of the mirror'
            a = phot.snapshot(el(ph))
            for i in range(30):
                s.emit('shell', shell=num(b[col][i]), y=num(b['pos'][i, 1]), z=num(b['pos'][i, 2]), en=num(1), e0=num(1), e1=num(1), same=True,
                       a0=[num(1e9)] * len(rows), a1=[num(1e9)] * len(rows), p0=num(b['probability'][i]), p1=num(b['probability'][i]))
                s.emit('factor', what=what, en=num(1), e0=num(1), e1=num(1), f0=num(scale), f1=num(scale), p0=num(b['probability'][i]), p1=num(a['probability'][i]),
                       same=same(b, a, ('probability', 'pos', 'dir', 'polarization', 'y', 'z')))


def corners():
    out = []
    for n in ACIS_name:
        c = {}
        for k in ('LL', 'LR', 'UR', 'UL'):
            q = re.search(rf'^ACIS-{n}-{k},s,h,"\(([^)]*)\)"', cdata.PIX_CORNER_LSI_PAR, re.M)
            c[k] = np.array([float(x) for x in q.group(1).split()])
        out.append(c)
    return out


@CHECK.scenario(quick=12, thorough=150, trace='MissionsTrace', chunks=4)
def chips(rec, rng, n):
    cor = corners()
    for j in range(n):
        with rec.session(f'tiles {j}') as s:
            T = cdata.TDET['ACIS']
            s.emit('table', chips=[{'scale': num(T['scale'][i]), 'hand': num(T['handedness'][i]), 'theta': num(T['theta'][i]), 'org': vec(T['origin'][i])}
                                   for i in range(len(T['theta']))])
            m = int(rng.integers(1, 6))
            t = {'scale': rng.uniform(0.3, 2, m), 'handedness': rng.choice([-1., 1.], m), 'theta': rng.uniform(-7, 7, m), 'origin': rng.integers(-500, 5000, (m, 2))}
            for i in range(m):
                c = rng.uniform(-10, 1100, (4, 2))
                o = cdata.chip2tdet(c, t, i)
                for q in range(4):
                    s.emit('tile', c=vec(c[q]), out=vec(o[q]), t={'scale': num(t['scale'][i]), 'hand': num(t['handedness'][i]), 'theta': num(t['theta'][i]), 'org': vec(t['origin'][i])})
        with rec.session(f'ACIS {j}') as s:
            pick = [[4, 5, 6, 7, 8, 9], [0, 1, 2, 3], [7], [2, 3, 6, 7, 8], [9, 1, 5]][j % 5] if j % 2 else sorted(rng.choice(10, int(rng.integers(1, 10)), replace=False).tolist())
            aim = np.array(cdata.AIMPOINTS['ACIS-S' if 7 in pick else 'ACIS-I'], float)
            off = np.zeros(3)
            kw = {}
            if j % 3:
                off = np.array([rng.normal(), 0, rng.normal() * 10])
                kw = {'DetOffsetX': off[0], 'DetOffsetY': off[2]}
            A = ACIS(chips=list(pick), aimpoint=aim.copy(), **kw)
            sh = np.array([0.684, 0.750, 236.552]) + aim - off
            roll = float(rng.uniform(-180, 180))
            s.emit('acis', chips=[{'id': int(i), 'll': vec(cor[i]['LL']), 'lr': vec(cor[i]['LR']), 'ul': vec(cor[i]['UL'])} for i in pick],
                   shift=vec(sh), roll=num(np.deg2rad(roll)), count=len(A.elements), ids=[int(e.id_num) for e in A.elements],
                   aim=vec(aim), off=vec(off), name='ACIS-' + ''.join(str(i) for i in pick))
            m = 40
            tgt = np.empty((m, 3))
            for i in range(m):
                c = cor[pick[i % len(pick)] if i % 4 else int(rng.integers(10))]
                f = rng.uniform(-0.05, 1.05, 2)
                tgt[i] = c['LL'] + f[0] * (c['LR'] - c['LL']) + f[1] * (c['UL'] - c['LL']) + sh
            v = np.array([-1., 0, 0]) + rng.normal(size=(m, 3)) * 0.05
            v /= np.linalg.norm(v, axis=1)[:, None]
            pos = tgt - v * 100
            ph = table(pos, v, 1., rng)
            ph.meta['ROLL_PNT'] = (roll, 'roll')
            ph = A(ph)
            o = phot.snapshot(ph)
            for i in range(m):
                has = bool(o['CCD_ID'][i] >= 0)
                g = lambda *c: [num(o[k][i]) if k in o and has else num(0) for k in c]
                s.emit('event', pos=vec(pos[i]), dir=vec(v[i]), has=has, ccd=num(o['CCD_ID'][i]), chip=g('chipx', 'chipy'), tdet=g('tdetx', 'tdety'),
                       det=g('detx', 'dety'), sky=g('x', 'y'))
            val = lambda k: ph.meta[k][0] if isinstance(ph.meta[k], (tuple, list)) else ph.meta[k]
            if 'SIM_X' in ph.meta:
                s.emit('meta', sim=vec([val('SIM_X'), val('SIM_Y'), val('SIM_Z')]), detnam=str(val('DETNAM')))


@CHECK.scenario(quick=12, thorough=100, trace='MissionsTrace', chunks=2)
def settings(rec, rng, n):
    for j in range(n):
        with rec.session(f'settings {j}') as s:
            for f, conv in ((arcus.reformat_randall_errorbudget, True), (lynx.reformat_errorbudget, False)):
                rows = [[None, ['global', 'individual', 'individual_with_tilt'][int(rng.integers(3))],
                         (rng.uniform(0, 1000, 6) * (rng.random(6) < 0.8)).tolist(), None, 'x'] for _ in range(int(rng.integers(1, 5)))]
                if j % 2:
                    for r in rows:
                        r[2] = [int(x) for x in r[2]]
                gf = [0.8, 1., None, rng.uniform(0, 2)][j % 4]
                inp = copy.deepcopy(rows)
                if j % 4 == 0:
                    f(rows)
                else:
                    f(rows, globalfac=gf)
                for r, r0 in zip(rows, inp):
                    if r[1] == 'global' and gf is None:
                        s.emit('random', out=vec(r[3]), **{'in': vec(r0[2])})
                    else:
                        s.emit('budget', out=vec(r[3]), conv=conv, scale=num(gf if r[1] == 'global' else 1.), **{'in': vec(r0[2])})
            # numbers in files
            with tempfile.TemporaryDirectory() as d:
                os.mkdir(os.path.join(d, 'a'))
                x = rng.normal() * 10 ** rng.uniform(-3, 3)
                unit = [None, u.mm, u.arcsec, u.keV][j % 4]
                t = Table({'v': [x], 'w': [3.]})
                t['v'].unit = unit
                t.write(os.path.join(d, 'a', 'f.csv'), format='ascii.ecsv')
                Table({'v': [x, x]}).write(os.path.join(d, 'a', 'two.csv'), format='ascii.ecsv')
                had = load_csv.config.has_section('data')
                old = load_csv.config['data'].get('caldb_inputdata') if had else None
                if not had:
                    load_csv.config.add_section('data')
                load_csv.config['data']['caldb_inputdata'] = d
                try:
                    v = load_csv.load_number('a', 'f', 'v')
                    s.emit('number', got=num(getattr(v, 'value', v)), want=num(x), unit=str(getattr(v, 'unit', '')), wantunit='' if unit is None else str(unit))
                    with s.expect_error('file with several rows where one number is expected'):
                        load_csv.load_number('a', 'two', 'v')
                    t2 = load_csv.load_table('a', 'two')
                    s.emit('rows', what='table in a file', n=len(t2), rows=2, first=0, ids=[num(0), num(1)])
                finally:
                    if not had:
                        load_csv.config.remove_section('data')
                    else:
                        load_csv.config['data']['caldb_inputdata'] = old
            # camera on the Rowland circle
            conf = dict(arcus.defaultconf)
            if j % 3:
                conf['phi_det_start'] = rng.uniform(0.02, 0.04)
            det = arcus.DetCamera(conf)
            T = conf['rowland_detector']
            c = (T.pos4d @ [T.R, 0, 0, 1])[:3]
            p = np.array([e.pos4d[:3, 3] for e in det.elements])
            nrm = np.array([e.pos4d[:3, 0] / np.linalg.norm(e.pos4d[:3, 0]) for e in det.elements])
            w = p - c
            di = np.linalg.norm(w, axis=1)
            ang = np.arccos(np.clip(np.sum(w[1:] * w[:-1], axis=1) / di[1:] / di[:-1], -1, 1))
            gap = ang * T.r - 2 * 24.576
            s.emit('rows', what='detectors', n=len(det.elements), rows=16, first=1, ids=[num(e.id_num) for e in det.elements])
            s.emit('arc', dist=vec(di), r=num(T.r), face=vec(np.abs(np.sum(w * nrm, axis=1)) / di), x=vec(p[:, 0]),
                   gap=vec(np.sort(gap[:7])) + vec(np.sort(gap[8:])), want=vec([2.15] * 5 + [4.] * 2) * 2)


def small(conf, rng, k, size):
    """a model with few gratings: some shells, large gratings"""
    c = dict(conf)
    c['grating_size'] = np.array(size)
    c['metashellgeometry'] = conf['metashellgeometry'][k:k + 2]
    return c


@CHECK.scenario(quick=2, thorough=10, trace='MissionsTrace', chunks=1)
def instruments(rec, rng, n):
    for j in range(n):
        mod = (lynx, AXIS)[j % 2]
        conf = small(mod.conf, rng, int(rng.integers(0, 4)), rng.uniform([60, 100], [90, 160]))
        g = conf['metashellgeometry']
        with rec.session(f'{mod.__name__.split(".")[-1]} {j}') as s, warnings.catch_warnings():
            warnings.simplefilter('ignore')
            filters = arcus.FiltersAndQE.filterlist
            arcus.FiltersAndQE.filterlist = []          # their tables are not part of the package
            try:
                model = (mod.PerfectLynx if mod is lynx else mod.PerfectAXIS)(conf=conf)
            finally:
                arcus.FiltersAndQE.filterlist = filters
            gas = model.elements_of_class(lynx.LynxGAS)[0]
            det = model.elements_of_class(mod.RowlandDetArray)[0]
            half = lambda es: [vec(np.linalg.norm(e.pos4d[:3, 1:3], axis=0)) for e in es]
            T = conf['rowland']
            inv = np.linalg.inv(T.pos4d)
            dp = np.array([e.pos4d[:, 3] for e in det.elements])
            q = dp @ inv.T
            # with r > R the two sheets of the torus intersect, either of them will do
            sheet = [np.hypot(np.hypot(q[:, 0], q[:, 2]) + sign * T.R, q[:, 1]) - T.r for sign in (-1, 1)]
            tor = np.where(np.abs(sheet[0]) < np.abs(sheet[1]), *sheet)
            cen = np.array([e.pos4d[:3, 3] for e in gas.elements])
            nx = np.array([e.pos4d[:3, 0] / np.linalg.norm(e.pos4d[:3, 0]) for e in gas.elements])
            ca = np.abs(np.sum(cen * nx, axis=1)) / np.linalg.norm(cen, axis=1)
            margin = float(np.hypot(*(conf['grating_size'] + 4)))
            s.emit('model', half=half(gas.elements), size=vec(list(conf['grating_size'] / 2) + [conf['det_kwargs']['d_element'][0]]),
                   rad=vec(np.hypot(cen[:, 1], cen[:, 2])), radii=vec([np.min(g['r_inner']) - margin, np.max(g['r_outer']) + margin]),
                   dety=vec(np.sort(dp[:, 1])), range=vec(conf['det_kwargs']['y_range']), torus=vec(tor), blaze=vec(np.arccos(np.clip(ca, -1, 1))), want=num(np.deg2rad(1.6)))
            before = [mat(e.pos4d) for e in gas.elements]
            other = small(mod.conf, rng, 2, [50., 50.])
            other['metashellgeometry'] = mod.conf['metashellgeometry'][4:5]
            lynx.LynxGAS(other)
            gas.generate_elements()
            s.emit('kept', before=before, after=[mat(e.pos4d) for e in gas.elements])
            # chirp
            import marxs.missions.mitsnl.catgrating as cg

            def spread(m):
                gs = m.elements_of_class(cg.NonParallelCATGrating, subclass_ok=False)
                st = m.elements_of_class(lynx.LynxGAS)[0].elements
                out = []
                for e in gs[:3]:
                    P = e.pos4d
                    y = np.linspace(-0.9, 0.9, 7)
                    x = P[:3, 3] + y[:, None] * P[:3, 1]
                    d = -x / np.linalg.norm(x, axis=1)[:, None]
                    old = e.order_selector
                    e.order_selector = OrderSelector([-5])
                    ph = e(table(x - 10 * d, d, 0.6))
                    e.order_selector = old
                    ph = mod.detcirc(ph)
                    out.append(np.std(ph['detcirc_phi']))
                return float(np.mean(out))
            without = spread(model)
            few = dict(conf)
            few['gas_kwargs'] = dict(conf['gas_kwargs'])
            few['chirp_energy'], few['chirp_order'] = 0.6, -5.
            few['metashellgeometry'] = conf['metashellgeometry'][:1]
            arcus.FiltersAndQE.filterlist = []
            try:
                m2 = (mod.PerfectLynx if mod is lynx else mod.PerfectAXIS)(conf=few)
            finally:
                arcus.FiltersAndQE.filterlist = filters
            s.emit('chirp', without=num(without), **{'with': num(spread(m2))})
