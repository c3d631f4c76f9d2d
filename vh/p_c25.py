"""C25: displayed shapes."""
import io
import json
import os
import tempfile
import warnings

import numpy as np

from .core import Check
from .num import num, vec, mat
from . import rand, phot
from .p_c24 import place

from marxs.base import MarxsElement
from marxs import optics
from marxs.design.rowland import RowlandTorus
from marxs.math.geometry import CircularHole, RectangleHole, Cylinder, FinitePlane
from marxs.optics import (FlatDetector, CircularDetector, CircleAperture, RectangleAperture, Baffle, ThinLens,
                          FlatStack, MultiAperture, FlatGrating, OrderSelector)
from marxs.simulator import Sequence, Parallel
from marxs.visualization import utils as vu
from marxs.visualization import x3d as vx
from marxs.visualization import threejs as vt
from marxs.visualization import threejsjson as vj

CHECK = Check('C25', assumptions=[
    'coverage of openings is sampled at random points away from the outlines by more than a step of the polygon',
    'x3d coordinates are compared to the precision they are written with (0.1 mm)',
    'mayavi is not available: only the json and x3d exports are driven'])
CHECK.mc('DisplayMC')
CHECK.mc('DisplayMC', 'DisplayMC_big.cfg', quick=False)

Z3 = [num(0)] * 3


def tris(t):
    return [[int(x) for x in r] for r in np.asarray(t).reshape(-1, 3)]


def pts3(x):
    return [vec(p) for p in np.asarray(x, float).reshape(-1, 3)]


@CHECK.scenario(quick=200, thorough=4000, trace='DisplayTrace', chunks=3)
def strips(rec, rng, n):
    for j in range(n):
        with rec.session('frame between two outlines') as s:
            n1, n2 = (int(x) for x in rng.integers(3, 24, 2))
            if j % 3 == 0:
                n1 = n2
            if j % 2:
                ro, ri, yz, pp = 0., 0., [], []
                a, b = rng.normal(size=(n1, 3)), rng.normal(size=(n2, 3))
            else:
                ro = float(10 ** rng.uniform(-1, 2))
                ri = float(ro * rng.uniform(0.05, 0.9))
                ph = rng.uniform(0, 2 * np.pi)
                sg = rng.choice([-1, 1])
                a = np.array([[0, ro * np.cos(ph + sg * 2 * np.pi * i / n1), ro * np.sin(ph + sg * 2 * np.pi * i / n1)] for i in range(n1)])
                b = np.array([[0, ri * np.cos(ph + sg * 2 * np.pi * i / n2), ri * np.sin(ph + sg * 2 * np.pi * i / n2)] for i in range(n2)])
                yz = [vec(p[1:]) for p in np.vstack([a, b])]
                pp = [vec(x) for x in rng.uniform(-1.1, 1.1, (6, 2)) * ro]
            xyz, t = vu.plane_with_hole(a, b)
            s.emit('strip', n1=n1, n2=n2, same=bool(xyz.shape == (n1 + n2, 3) and np.array_equal(xyz, np.vstack([a, b]))),
                   tri=tris(t), ro=num(ro), ri=num(ri), yz=yz, pts=pp)
        if j % 2 == 0:
            with rec.session('shapes put together') as s:
                parts = []
                for i in range(int(rng.integers(1, 5))):
                    m = int(rng.integers(3, 9))
                    parts.append((rng.normal(size=(m, 3)), rng.integers(0, m, (int(rng.integers(1, 6)), 3))))
                b = [{'xyz': pts3(x), 'tri': tris(t)} for x, t in parts]
                xyz, t = vu.combine_disjoint_triangulations([x for x, _ in parts], [t for _, t in parts])
                s.emit('combine', parts=b, xyz=pts3(xyz), tri=tris(t))


def openings(rng, j):
    """an element with an opening, and what it should look like"""
    M = place(rng)
    h = dict(lo=num(0), hi=num(2 * np.pi), inner=num(0), ri=num(0))
    of = float([3., rng.uniform(1.05, 5)][int(rng.integers(2))])
    kind = ['circle', 'square', 'circle', 'baffle', 'ring'][j % 5]
    if kind in ('circle', 'ring'):
        zo = float(10 ** rng.uniform(-1, 3))
        M = rand.aff(M[:3, 3], rand.rotation(rng) if rng.random() < 0.8 else None, [rng.uniform(0.5, 2), zo, zo])
        kw = {}
        if rng.random() < 0.7:
            lo = rng.uniform(-np.pi, np.pi)
            w = rng.uniform(0.3, 6.1)
            kw['phi'] = [lo, lo + w]
            h['lo'], h['hi'] = num(lo), num(lo + w)
        inf = None
        if kind == 'ring':
            ri = rng.uniform(0.1, 0.9)
            kw['r_inner'] = ri * zo
            h['ri'] = num(ri)
            if rng.random() < 0.7:
                inf = float(rng.uniform(0.1, 0.9))
                h['inner'] = num(inf * ri)
        e = CircleAperture(pos4d=M.copy(), **kw)
        if of != 3. or rng.random() < 0.5:
            e.display['outer_factor'] = of
        if inf is not None:
            e.display['inner_factor'] = inf
        h['how'] = 'circle'
    else:
        e = (Baffle if kind == 'baffle' else RectangleAperture)(pos4d=M.copy())
        if of != 3. or rng.random() < 0.5:
            e.display['outer_factor'] = of
        h['how'] = 'square'
    h.update(M=mat(M), of=num(of))
    return e, h, of, kind


@CHECK.scenario(quick=48, thorough=1200, trace='DisplayTrace', chunks=4)
def holes(rec, rng, n):
    for j in range(n):
        with rec.session('plate with an opening') as s:
            e, h, of, kind = openings(rng, j)
            e.display['color'] = ['red', (0.2, 0.4, 0.6), '#102030'][j % 3]
            before = mat(e.pos4d)
            if kind == 'baffle':
                xyz, t = e.triangulate_inner_outer()
            else:
                xyz, t = e.geometry.triangulate(e.display)
            r = rng.uniform(0, 1.05 * of, 10)
            r[:5] = rng.uniform(0, 1, 5)
            ph = rng.uniform(0, 2 * np.pi, 10)
            p = np.column_stack([r * np.cos(ph), r * np.sin(ph)])
            s.emit('hole', xyz=pts3(xyz), tri=tris(t), pts=[vec(x) for x in p], **h)
            if kind != 'baffle':
                if j % 2:
                    out = vj.plot_object(e)
                    s.emit('jtri', xyz=pts3(xyz), tri=tris(t), pos=pts3(out['pos'][0]), faces=tris(out['faces'][0]))
                else:
                    sc = vx.plot_object(e)
                    g = sc.children[0].geometry
                    s.emit('xtri', xyz=pts3(xyz), tri=tris(t), pos=pts3(g.coord.point), faces=tris(g.index))
            s.emit('still', before=before, after=mat(e.pos4d), other=True)


VALS = ['"box"', '2', '(1.0, 0.5, 0.2)', '"red"', 'None', '0', '[1, 2]']


@CHECK.scenario(quick=150, thorough=3000, trace='DisplayTrace', chunks=2)
def settings(rec, rng, n):
    keys = ['shape', 'color', 'outer_factor', 'n_points', 'opacity', 'special']
    for j in range(n):
        with rec.session('settings of an element') as s:
            has = bool(j % 4)
            if has:
                e = [lambda: FlatDetector(), lambda: CircleAperture(zoom=[1, 5, 5]), lambda: CircularDetector(),
                     lambda: Baffle()][int(rng.integers(4))]()
            else:
                e = MarxsElement()
            cls = {k: repr(v) for k, v in type(e).display.items()}
            s.emit('look', own={'zz': '', **{k: repr(dict.__getitem__(e.display, k)) for k in e.display}}, has=has,
                   geo={'zz': '', **({k: repr(getattr(e.geometry, k)) for k in keys if hasattr(e.geometry, k)} if has else {})},
                   fresh=bool({k: repr(dict.__getitem__(e.display, k)) for k in e.display} == cls and e.display is not type(e).display))
            for i in range(int(rng.integers(4, 14))):
                k = keys[int(rng.integers(len(keys)))]
                op = rng.random()
                v = eval(VALS[int(rng.integers(len(VALS)))])
                if op < 0.2:
                    e.display[k] = v
                    s.emit('set', key=k, val=repr(v))
                elif op < 0.3:
                    e.display.pop(k, None)
                    s.emit('del', key=k)
                elif op < 0.42 and has:
                    setattr(e.geometry, k, v)
                    s.emit('geom', key=k, val=repr(v))
                elif op < 0.7:
                    try:
                        got = repr(e.display[k])
                    except KeyError:
                        got = 'missing'
                    s.emit('get', key=k, how='index', got=got, default='')
                else:
                    got = repr(e.display.get(k, 'nix')) if op < 0.85 else repr(e.display.get(k))
                    s.emit('get', key=k, how='get', got=got, default=repr('nix') if op < 0.85 else 'None')
            if has:
                s.emit('geocheck', geo={'zz': '', **{k: repr(getattr(e.geometry, k)) for k in keys if hasattr(e.geometry, k)}})
            other = type(e)(zoom=[1, 5, 5]) if has else type(e)()
            cls2 = {k: repr(v) for k, v in type(e).display.items()}
            s.emit('look', own={'zz': ''}, has=False, geo={'zz': ''},
                   fresh=bool(cls2 == cls and {k: repr(dict.__getitem__(other.display, k)) for k in other.display} == cls))
    shapes = ['box', 'surface', 'torus', 'cylinder', 'None', 'sphere', 'container']
    for j in range(n):
        with rec.session('routine that draws an element') as s:
            known = [str(x) for x in rng.choice([x for x in shapes if x != 'None'], int(rng.integers(0, 4)), replace=False)]
            want = [str(x) for x in rng.choice(shapes, int(rng.integers(1, 4)), replace=False)]
            text = ';'.join(' ' * int(rng.integers(3)) + x + ' ' * int(rng.integers(2)) for x in want)
            calls = []

            def routine(name):
                def f(obj, display, **kw):
                    calls.append((name, obj, display, kw))
                    return 'out ' + name
                return f
            e = FlatDetector()
            how = ['own', 'given', 'geometry', 'no shape', 'no display', 'nothing there'][j % 6]
            disp = None
            if how == 'own':
                e.display['shape'] = text
            elif how == 'given':
                disp = {'shape': text, 'color': 'blue'}
                e.display['shape'] = 'sphere'
            elif how == 'geometry':
                e.display.pop('shape', None)
                e.geometry.shape = text
            elif how == 'no shape':
                e = MarxsElement()
                e.display.pop('shape')
            elif how == 'no display':
                e.display = None
            else:
                e = object()
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter('always')
                out = vu.plot_object_general({k: routine(k) for k in known}, e, display=disp, extra=7)
            warned = any(issubclass(x.category, vu.MARXSVisualizationWarning) for x in w)
            if calls:
                nm, o, d, kw = calls[0]
                same = o is e and d is (disp if how == 'given' else e.display) and kw == {'extra': 7} and out == 'out ' + nm \
                    and isinstance(d['color'], tuple) and len(calls) == 1
            else:
                nm, same = 'nothing', out is None
            s.emit('dispatch', shapes=want, known=known, set=how in ('own', 'given', 'geometry'), called=nm, warned=bool(warned),
                   same=bool(same))


def assembly(rng, depth, names):
    """an assembly of elements with unique names and colors, and its plan"""
    if depth == 0 or rng.random() < 0.45:
        k = len(names) + 1
        names.append(k)
        col = '#%02x8040' % k
        kind = int(rng.integers(9))
        M = place(rng)
        if kind == 0:
            e, sh = FlatDetector(pos4d=M), ['box']
        elif kind == 1:
            e, sh = CircularDetector(pos4d=rand.aff(M[:3, 3], None, [2, 2, 3])), ['surface']
        elif kind == 2:
            e, sh = RectangleAperture(pos4d=M), ['triangulation']
        elif kind == 3:
            e, sh = ThinLens(focallength=10, pos4d=M), ['triangulation']
            e.display['shape'] = 'None; box'
            sh = ['None', 'box']
        elif kind == 4:
            e, sh = Baffle(pos4d=M), ['plane with hole']
        elif kind == 5:
            e, sh = FlatDetector(pos4d=M), ['odd', 'box']
            e.display['shape'] = 'odd; box'
        elif kind == 6:
            # settings are there, but no color
            e, sh = FlatStack(pos4d=M, elements=[ThinLens, Baffle], keywords=[{'focallength': 9}, {}]), ['box']
            e.display['shape'] = 'box'
        elif kind == 7:
            e, sh = FlatGrating(d=1e-3, order_selector=OrderSelector([0]), pos4d=M), ['box']
        else:
            e, sh = optics.EnergyFilter(filterfunc=lambda x: x) if rng.random() < 0.5 else FlatDetector(pos4d=M), ['None', 'box']
            e.display['shape'] = 'None; box'
        e.display['color'] = col
        e.name = f'part {k}'
        return e, {'shapes': sh, 'name': e.name, 'sub': []}
    m = int(rng.integers(0, 4))
    if rng.random() < 0.25 and m:
        ep = [place(rng) for i in range(m)]
        e = Parallel(elem_class=FlatDetector, elem_pos=ep)
        sub = []
        for x in e.elements:
            k = len(names) + 1
            names.append(k)
            x.display['color'] = '#%02x8040' % k
            x.name = f'part {k}'
            sub.append({'shapes': ['box'], 'name': x.name, 'sub': []})
    elif rng.random() < 0.25 and m:
        parts = []
        sub = []
        for i in range(m):
            k = len(names) + 1
            names.append(k)
            x = RectangleAperture(pos4d=place(rng))
            x.display['color'] = '#%02x8040' % k
            x.name = f'part {k}'
            parts.append(x)
            sub.append({'shapes': ['triangulation'], 'name': x.name, 'sub': []})
        e = MultiAperture(elements=parts)
    else:
        both = [assembly(rng, depth - 1, names) for i in range(m)]
        e = Sequence(elements=[x for x, _ in both])
        sub = [y for _, y in both]
    e.name = 'group'
    return e, {'shapes': ['container'], 'name': 'group', 'sub': sub}


def every(e):
    out = [e]
    for x in getattr(e, 'elements', []):
        out += every(x)
    return out


@CHECK.scenario(quick=80, thorough=1600, trace='DisplayTrace', chunks=2)
def assemblies(rec, rng, n):
    for j in range(n):
        with rec.session('assembly') as s:
            names = []
            e, plan = assembly(rng, 3, names)
            parts = [x for x in every(e) if hasattr(x, 'pos4d')]
            before = [mat(x.pos4d) for x in parts]
            other = [(repr(getattr(x, 'name', '')), {k: repr(v) for k, v in x.display.items() if k != 'color'}) for x in every(e)]
            rounds = [['json'], ['x3d'], ['json', 'x3d'], ['x3d', 'json', 'json']][j % 4]
            for what in rounds:
                if what == 'json':
                    out = vj.plot_object(e)
                    out = [] if out is None else out if isinstance(out, list) else [out]
                    got = [x['name'] for x in out]
                    known = ['triangulation', 'torus', 'box', 'container']
                    s.emit('assembly', tree=plan, known=known, names=got, what='json')
                    a = json.loads(json.dumps(out))
                    info = phot_info(rng) if rng.random() < 0.5 else None
                    f = io.StringIO()
                    if out and rng.random() < 0.7:
                        vj.write(f, out if rng.random() < 0.7 or len(out) > 1 else out[0], photons=info)
                        d = json.loads(f.getvalue())
                        s.emit('file', **{'in': json.dumps(a, sort_keys=True), 'out': json.dumps(d['elements'], sort_keys=True),
                                          'infoin': json.dumps({k: repr_meta(v) for k, v in (info.meta if info is not None else {}).items()}, sort_keys=True),
                                          'infoout': json.dumps({k: repr_meta(v) for k, v in d.get('runinfo', {}).items()}, sort_keys=True)})
                else:
                    sc = vx.plot_object(e)
                    got = [f'part {int(round(c.appearance.material.diffuseColor[0] * 255))}' for c in sc.children]
                    s.emit('assembly', tree=plan, known=['triangulation', 'surface', 'box', 'container'], names=got, what='x3d')
            s.emit('still', before=before, after=[mat(x.pos4d) for x in parts],
                   other=bool(other == [(repr(getattr(x, 'name', '')), {k: repr(v) for k, v in x.display.items() if k not in ('color',)}) for x in every(e)]))


def phot_info(rng):
    t = rand.photons(rng, rng.normal(size=(2, 3)), rand.unit(rng, 2))
    t.meta['EXPOSURE'] = (float(rng.uniform(1, 100)), 'total exposure time [s]')
    t.meta['N'] = int(rng.integers(100))
    t.meta['TITLE'] = 'run %d' % rng.integers(100)
    return t


def repr_meta(v):
    return repr(list(v)) if isinstance(v, (list, tuple)) else repr(v)


def coo(rng, j, lo, hi, ends):
    """coordinates asked for, or the limits that are used without any"""
    if j % 3 == 0:
        return None, {'given': False, 'v': vec(ends)}
    v = np.sort(rng.uniform(lo, hi, int(rng.integers(2, 9))))
    return v, {'given': True, 'v': vec(v)}


def quads(idx):
    out, cur = [], []
    for i in idx:
        if i == -1:
            out.append(cur)
            cur = []
        else:
            cur.append(int(i))
    return out + ([cur] if cur else [])


@CHECK.scenario(quick=90, thorough=1600, trace='DisplayTrace', chunks=3)
def surfaces(rec, rng, n):
    for j in range(n):
        with rec.session('curved surface') as s:
            M = place(rng)
            if j % 2:
                lim = [-np.pi, np.pi]
                kw = {}
                if rng.random() < 0.6:
                    lim = sorted(rng.uniform(-np.pi, np.pi, 2))
                    kw['phi_lim'] = list(lim)
                M = rand.aff(M[:3, 3], rand.rotation(rng), 10 ** rng.uniform(0, 2, 3))
                if rng.random() < 0.7:
                    M = M @ np.diag([1, np.linalg.norm(M[:3, 0]) / np.linalg.norm(M[:3, 1]), 1, 1])
                obj = CircularDetector(pos4d=M.copy(), **kw)
                g = obj.geometry
                zl = np.linalg.norm(M[:3, 2])
                one, oe = coo(rng, int(rng.integers(3)), -np.pi, np.pi, lim)
                two, te = coo(rng, int(rng.integers(3)), -zl, zl, [-1, 1])
                ev = dict(geom='cylinder', M=mat(M), one=oe, two=te)
            else:
                R, r = 10 ** rng.uniform(0, 2.5, 2)
                M = rand.aff(M[:3, 3], rand.rotation(rng))
                obj = g = RowlandTorus(R=R, r=r, pos4d=M.copy())
                one, oe = coo(rng, int(rng.integers(3)), -np.pi, 2 * np.pi, [0, 2 * np.pi])
                two, te = coo(rng, int(rng.integers(3)), -np.pi, 2 * np.pi, [0, 2 * np.pi])
                ev = dict(geom='torus', M=mat(M), R=num(R), r=num(r), one=oe, two=te)
            npts = int(rng.integers(4, 10))
            if one is None or two is None:
                g.n_points = npts
            a = g.parametric_surface(one, two, obj.display)
            got = [[vec(p) for p in row] for row in a]
            s.emit('surface', got=got, **ev)
            if j % 2:
                if one is not None:
                    obj.display['coo1'] = one
                if two is not None:
                    obj.display['coo2'] = two
                disp, o2 = obj.display, obj
            else:
                disp = {'color': (1., 0., 0.), 'shape': 'surface'}
                if one is not None:
                    disp['coo1'] = one
                if two is not None:
                    disp['coo2'] = two

                class O2:
                    geometry = g
                o2 = O2()
            sc = vx.plot_object(o2, display=None if j % 2 else disp)
            gg = sc.children[0].geometry
            s.emit('faces', n1=a.shape[0], n2=a.shape[1], pts=pts3(a[..., :3]), out=pts3(gg.coord.point), idx=quads(gg.coordIndex))
            s.emit('still', before=mat(M), after=mat(g.pos4d), other=True)
    for j in range(n // 2):
        with rec.session('torus in the browser') as s:
            R, r = 10 ** rng.uniform(0, 2.5, 2)
            M = rand.aff(rng.normal(size=3) * 10, rand.rotation(rng))
            g = RowlandTorus(R=R, r=r, pos4d=M.copy())
            g.display = {'color': (1., 0., 0.), 'shape': 'surface; torus'}
            g.name = 'torus'
            th, ph = [0, 2 * np.pi], [0, 2 * np.pi]
            if j % 3:
                th, ph = sorted(rng.uniform(0.1, 6, 2)), sorted(rng.uniform(0.1, 6, 2))
                g.display['coo1'], g.display['coo2'] = th, ph
            o = vj.plot_object(g)
            s.emit('jtorus', M=mat(M), R=num(R), r=num(r), th=vec(th), ph=vec(ph), pos=vec(o['pos4d'][0]),
                   args=vec(o['geometrypars']))


@CHECK.scenario(quick=80, thorough=1600, trace='DisplayTrace', chunks=2)
def boxes(rec, rng, n):
    for j in range(n):
        with rec.session('box') as s:
            M = rand.aff(rng.normal(size=3) * 100, rand.rotation(rng) if j % 5 else None, 10 ** rng.uniform(1, 2.5, 3))
            e = [lambda: FlatDetector(pos4d=M.copy()),
                 lambda: FlatGrating(d=1e-3, order_selector=OrderSelector([0]), pos4d=M.copy()),
                 lambda: ThinLens(focallength=100, pos4d=M.copy())][j % 3]()
            half = []
            e.display.pop('box-half', None)
            if rng.random() < 0.6:
                ax, sg = int(rng.integers(3)), int(rng.integers(2))
                e.display['box-half'] = '-+'[sg] + 'xyz'[ax]
                half = [ax + 1, sg]
            e.display['shape'] = 'box'
            sc = vx.plot_object(e)
            g = sc.children[0].geometry
            s.emit('box', M=mat(M), half=half, out=pts3(g.coord.point), idx=quads(g.coordIndex))
            o = vj.plot_object(e)
            s.emit('jbox', M=mat(M), pos=vec(o['pos4d'][0]), pars=[int(x) for x in o['geometrypars']])
            s.emit('still', before=mat(M), after=mat(e.pos4d), other=bool(np.array_equal(e.geometry.pos4d, M)))


@CHECK.scenario(quick=80, thorough=1600, trace='DisplayTrace', chunks=2)
def rays(rec, rng, n):
    from matplotlib import colormaps
    for j in range(n):
        with rec.session('rays') as s:
            m, N = int(rng.integers(1, 9)), int(rng.integers(2, 6))
            data = rng.uniform(-1, 1, (m, N, 3)) * 10 ** rng.uniform(2, 4)
            k = int(rng.integers(1, 5))
            vals = rng.uniform(0, 10, k)
            sc = vals[rng.integers(0, k, m)]
            mode = ['none', 'ray', 'point', 'ray'][j % 4]
            if mode == 'point':
                sc2 = vals[rng.integers(0, k, (m, N))]
                sc2[:, 0] = sc
            else:
                sc2 = None
            scalar = {'none': None, 'ray': sc, 'point': sc2}[mode]
            cm = colormaps['viridis']
            lo, hi = (0., 10.) if rng.random() < 0.5 else (None, None)
            kw = {'normalize_kwargs': {'vmin': lo, 'vmax': hi}} if lo is not None else {}
            keep = data.copy()
            scene = vx.plot_rays(data, scalar, **kw)
            lines = []
            for c in scene.children:
                lines.append({'pts': pts3(c.geometry.coord.point), 'counts': [int(x) for x in c.geometry.vertexCount],
                              'col': vec(c.appearance.material.emissiveColor)})
            one = np.ones(m) if mode == 'none' else sc
            a, b = (one.min(), one.max()) if lo is None else (lo, hi)
            want = [vec(cm(float((x - a) / (b - a)) if b > a else 0.)[:3]) for x in one]
            s.emit('rays', data=[pts3(x) for x in data], scalar=vec(one), lines=lines, want=want)
            o = vj.plot_rays(data, scalar, prop={}, cmap='viridis')
            per = sc2 if mode == 'point' else np.tile((np.zeros(m) if mode == 'none' else sc)[:, None], (1, N))
            a, b = per.min(), per.max()
            want = [[vec(cm(float((x - a) / (b - a)) if b > a else 0.)[:3]) for x in row] for row in per]
            s.emit('jrays', n=int(o['n']), data=[pts3(x) for x in data], scalar=[vec(x) for x in per], perpoint=True,
                   pos=[vec(x) for x in o['pos']], color=[vec(x) for x in o['color']], want=want)
            s.emit('still', before=[], after=[], other=bool(np.array_equal(keep, data)))
        with rec.session('values that do not fit the rays') as s:
            bad = [rng.uniform(size=m + 1), rng.uniform(size=(m, N + 1)), rng.uniform(size=(m, N, 1))][j % 3]
            with s.expect_error('wrong number of values for rays'):
                if j % 2:
                    vx.plot_rays(data, bad)
                else:
                    vj.plot_rays(data, bad)


@CHECK.scenario(quick=150, thorough=4000, trace='DisplayTrace')
def colors(rec, rng, n):
    names = ['white', 'w', 'black', 'k', 'red', 'r', 'blue', 'lime', 'orange', 'navy', 'gray', 'C0']
    for j in range(n):
        with rec.session('color') as s:
            how = ['name', 'hex', 'tuple', 'grey', 'none', 'list', 'array'][j % 7]
            nm, dg, v = '', [], [0., 0., 0.]
            if how == 'name':
                nm = names[int(rng.integers(len(names)))]
                d = {'color': nm}
            elif how == 'hex':
                b = rng.integers(0, 256, 3)
                if rng.random() < 0.3:
                    b[int(rng.integers(3))] = [0, 255, 1, 15][int(rng.integers(4))]
                dg = [list('%02x' % x) for x in b]
                d = {'color': '#' + ''.join('%02x' % x for x in b)}
            elif how == 'grey':
                v = [float(np.round(rng.uniform(0, 1), 3))] * 3
                d = {'color': repr(v[0])}
            elif how == 'none':
                d = {'opacity': 0.5}
            else:
                v = [float(x) for x in rng.uniform(0, 1, 3)]
                if rng.random() < 0.3:
                    v[int(rng.integers(3))] = float(rng.integers(2))
                d = {'color': {'tuple': tuple(v), 'list': list(v), 'array': np.array(v)}[how]}
            s.emit('color', how=how, name=nm, digits=dg, v=vec(v), got=vec(vu.get_color(d)))
        with rec.session('color as hexadecimal number') as s:
            kind = ['int', '8 bit', 'float'][j % 3]
            if kind == 'float':
                v = [float(x) for x in rng.uniform(0, 1, 3)]
            else:
                v = [int(x) for x in rng.integers(0, 256, 3)]
                if rng.random() < 0.4:
                    v[int(rng.integers(3))] = [0, 255, 1][int(rng.integers(3))]
                if kind == '8 bit':
                    v = [x / 255. for x in v]
            h = vu.color_tuple_to_hex(tuple(v))
            body = h[2:] if len(h) == 8 else 'xxxxxx'
            if len(h) != 8:
                s.emit('hex', how='int', v=vec([-1] * 3), prefix='bad length', digits=[['0', '0']] * 3)
            else:
                s.emit('hex', how='int' if kind == 'int' else 'float', v=vec(v), prefix=h[:2],
                       digits=[list(body[2 * i:2 * i + 2]) for i in range(3)])
        if j % 3 == 0:
            with rec.session('no color') as s:
                bad = [('notacolor', 0), ((2., 0., 0.), 0), ((-0.1, 0., 0.), 0), ((0.2, 0.3), 0), ('#12345', 0),
                       ((0.5, 1.5, 0.5), 1), ((0.5, -.1, 0.5), 1), ((256, 0, 0), 1), ((0, -1, 0), 1), ((1, 0.5, 0), 1)][(j // 3) % 10]
                with s.expect_error('no color: %r' % (bad[0],)):
                    if bad[1]:
                        vu.color_tuple_to_hex(bad[0])
                    else:
                        vu.get_color({'color': bad[0]})


@CHECK.scenario(quick=6, thorough=24, trace='DisplayTrace')
def text(rec, rng, n):
    """the older export as text"""
    for j in range(n):
        what = ['box', 'plate with an opening', 'torus', 'assembly', 'rays', 'material'][j % 6]
        with rec.session('text for three.js') as s:
            f = io.StringIO()
            try:
                if what == 'rays':
                    vt.plot_rays(rng.normal(size=(2, 3, 3)), f)
                elif what == 'material':
                    f.write(vt.materialspec({'color': (1., 0., 0.), 'opacity': 0.5}, 'MeshStandardMaterial'))
                else:
                    e = [lambda: FlatDetector(), lambda: RectangleAperture(), lambda: RowlandTorus(R=2, r=1),
                         lambda: Sequence(elements=[FlatDetector()])][j % 6]()
                    if what == 'torus':
                        e.display = {'shape': 'torus', 'color': (1., 0., 0.)}
                    vt.plot_object(e, e.display, outfile=f)
                done = len(f.getvalue()) > 10
            except Exception:
                done = False
            s.emit('text', what=what, done=bool(done))
