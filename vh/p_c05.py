"""C05: grouped elements sit where group, element and misalignment place them."""
import numpy as np

from .core import Check
from .num import num, vec, mat
from . import rand

from marxs.simulator import Parallel, ParallelCalculated, Sequence
from marxs.simulator.simulator import SimulationSetupError
from marxs.optics import FlatGrating, FlatDetector, FlatStack, EnergyFilter, OrderSelector
from marxs.optics.base import FlatOpticalElement
from marxs.optics.aperture import CircleAperture, RectangleAperture
from marxs.math.rotations import ex2vec_fix

CHECK = Check('C05')
CHECK.mc('PlacementMC')

EYE = np.eye(4)


class Rec(FlatOpticalElement):
    """an element that remembers what it was given"""

    def __init__(self, **kwargs):
        self.got = {k: kwargs.pop(k) for k in list(kwargs) if k in ('tag', 'size', 'mode', 'shape', 'arr')}
        super().__init__(**kwargs)


def placement(rng, zoom=True, big=20.):
    Z = 10 ** rng.uniform(-0.5, 0.7, 3) if zoom else (1, 1, 1)
    return rand.aff(rng.normal(size=3) * big, rand.rotation(rng), Z)


def misalign(rng, size=1.):
    w = rng.integers(4)
    if w == 0:
        return rand.aff(rng.normal(size=3) * size)
    if w == 1:
        return rand.aff((0, 0, 0), rand.rotation(rng))
    if w == 2:
        return rand.aff(rng.normal(size=3) * size, rand.rotmat(rand.unit(rng), rng.normal() * 0.01))
    return rand.aff(rng.normal(size=3) * size, rand.rotation(rng))


def keywords(rng, M, where):
    """the same placement, as pos4d or as position, orientation, zoom"""
    Z = np.linalg.norm(M[:3, :3], axis=0)
    if rng.random() < 0.5:
        return {where('pos4d'): M.copy()}
    kw = {where('position'): M[:3, 3].copy(), where('orientation'): M[:3, :3] / Z, where('zoom'): Z}
    return kw


def common(rng, n):
    """placement settings in elem_args: (keywords, the matrix each member gets)"""
    w = rng.integers(6)
    if w == 0:
        return {}, [EYE] * n
    if w == 1:
        M = placement(rng, big=1.)
        return keywords(rng, M, str), [M] * n
    if w == 2:
        z = float(rng.uniform(0.1, 5))
        return {'zoom': z}, [rand.aff(Z=(z, z, z))] * n
    if w == 3:
        R = rand.rotation(rng)
        return {'orientation': R}, [rand.aff(R=R)] * n
    if w == 4:       # one entry per member
        Ms = [placement(rng, big=1.) for i in range(n)]
        return {'pos4d': Ms}, Ms
    zs = [float(rng.uniform(0.1, 5)) for i in range(n)]
    t = rng.normal(size=3)
    return {'zoom': zs, 'position': t}, [rand.aff(t, Z=(z, z, z)) for z in zs]


def elempos(rng, n):
    Ms = [placement(rng, zoom=rng.random() < 0.6) for i in range(n)]
    w = rng.integers(4)
    if w == 0:
        return list(Ms), Ms
    if w == 1:
        return {'pos4d': [m.copy() for m in Ms]}, Ms
    if w == 2:
        Z = [np.linalg.norm(m[:3, :3], axis=0) for m in Ms]
        return {'position': [m[:3, 3] for m in Ms], 'orientation': [m[:3, :3] / z for m, z in zip(Ms, Z)],
                'zoom': Z}, Ms
    t = [rng.normal(size=3) * 10 for i in range(n)]
    return {'position': t}, [rand.aff(x) for x in t]


def emit_group(s, name, pos, e, c, unc=EYE, sig=None):
    s.emit('group', name=name, pos=mat(pos), unc=mat(unc), sig=[mat(x) for x in (sig or [EYE] * len(e))],
           e=[mat(x) for x in e], c=[mat(x) for x in c])


def scale_of(groups):
    m = 10.
    for g in groups:
        for el in g.elements:
            m = max(m, np.abs(el.pos4d).max())
        m = max(m, np.abs(g.pos4d).max() * max([1.] + [np.abs(p).max() for p in g.elem_pos]) * 3)
    return float(m) * 3


def observe(s, groups, elems=(), id0={}):
    s.emit('observe', groups=[{'name': n, 'M': [mat(x.pos4d) for x in g.elements],
                               'ids': [int(x.id_num) for x in g.elements], 'id0': id0.get(n, 0)}
                              for n, g in groups.items()],
           elems=[{'name': n, 'M': [mat(x.geometry.pos4d) for x in layers(x)]} for n, x in elems],
           scale=num(scale_of(groups.values())))


def layers(x):
    return [x] + list(getattr(x, 'elements', []))


def build(rng, s, name, n=None, cls=None, zoompos=True, args=None, **kw):
    """a group at a random place with random members"""
    n = int(rng.integers(1, 6)) if n is None else n
    ep, Ms = elempos(rng, n)
    ck, Cs = common(rng, n)
    pos = placement(rng, zoom=zoompos and rng.random() < 0.3)
    ea = dict(ck)
    ea.update(args or {})
    id0 = int(rng.choice([0, 0, 7, 100]))
    if id0:
        kw['id_num_offset'] = id0
    g = Parallel(elem_class=cls or Rec, elem_args=ea, elem_pos=ep, **keywords(rng, pos, str), **kw)
    emit_group(s, name, pos, Ms, Cs)
    return g, id0, (pos, ep, Ms, ea, Cs)


@CHECK.scenario(quick=60, thorough=2000, trace='PlacementTrace', chunks=2)
def composition(rec, rng, n):
    """group, misalignments and members in every combination, regenerated again and again"""
    for j in range(n):
        with rec.session('composition') as s:
            g, id0, (pos, ep, Ms, ea, Cs) = build(rng, s, 'g')
            observe(s, {'g': g}, id0={'g': id0})
            m = len(Ms)
            for k in range(int(rng.integers(1, 6))):
                w = rng.integers(6)
                ev = {}
                if w == 0:
                    U = misalign(rng)
                    g.uncertainty = U
                    ev['unc'] = mat(U)
                elif w == 1:
                    S = [misalign(rng) for i in range(m)]
                    g.elem_uncertainty = S
                    ev['sig'] = [mat(x) for x in S]
                elif w == 2:        # edit a single entry
                    i = int(rng.integers(m))
                    g.elem_uncertainty[i] = misalign(rng)
                    ev['sig'] = [mat(x) for x in g.elem_uncertainty]
                elif w == 3:
                    i = int(rng.integers(m))
                    g.elem_pos[i] = placement(rng)
                    Ms = list(Ms)
                    Ms[i] = g.elem_pos[i]
                    ev['e'] = [mat(x) for x in Ms]
                elif w == 4:        # in place, on this group's own matrix
                    g.uncertainty = np.array(g.uncertainty)
                    g.uncertainty[:3, 3] = rng.normal(size=3)
                    ev['unc'] = mat(g.uncertainty)
                for again in range(int(rng.integers(1, 3))):
                    g.generate_elements()
                s.emit('set', name='g', **ev)
                observe(s, {'g': g}, id0={'g': id0})


@CHECK.scenario(quick=40, thorough=1000, trace='PlacementTrace', chunks=2)
def shared_arguments(rec, rng, n):
    """two groups made from the very same argument objects, one of them edited"""
    for j in range(n):
        with rec.session('shared arguments') as s:
            m = int(rng.integers(1, 5))
            ep, Ms = elempos(rng, m)
            ck, Cs = common(rng, m)
            pos = placement(rng, zoom=False)
            kw = keywords(rng, pos, str)
            own = {k: np.array(v) for k, v in kw.items()}
            gs = {}
            for name in 'ab':
                gs[name] = Parallel(elem_class=Rec, elem_args=ck, elem_pos=ep, **kw)
                emit_group(s, name, pos, Ms, Cs)
            observe(s, gs)
            a = gs['a']
            i = int(rng.integers(m))
            ev = {}
            w = rng.integers(5)
            if w == 0:
                a.elem_pos[i] = placement(rng)
                ev['e'] = [mat(x) for x in a.elem_pos]
            elif w == 1:
                a.elem_uncertainty[i] = misalign(rng)
                ev['sig'] = [mat(x) for x in a.elem_uncertainty]
            elif w == 2:
                a.uncertainty = misalign(rng)
                ev['unc'] = mat(a.uncertainty)
            elif w == 3:
                a.uncertainty[:3, 3] += rng.normal(size=3)
                ev['unc'] = mat(a.uncertainty)
            else:
                a.elem_uncertainty[i][:3, 3] += rng.normal(size=3)
                ev['sig'] = [mat(x) if k != i else mat(a.elem_uncertainty[i]) for k, x in enumerate([EYE] * m)]
            s.emit('set', name='a', **ev)
            for g in gs.values():
                g.generate_elements()
            observe(s, gs)
            # a third one, made after the edits
            gs['c'] = Parallel(elem_class=Rec, elem_args=ck, elem_pos=[x.copy() for x in Ms], **own)
            emit_group(s, 'c', pos, Ms, Cs)
            observe(s, gs)


@CHECK.scenario(quick=50, thorough=1500, trace='PlacementTrace', chunks=2)
def moved_centres(rec, rng, n):
    for j in range(n):
        with rec.session('reference point') as s:
            g, id0, (pos, ep, Ms, ea, Cs) = build(rng, s, 'g')
            for k in range(int(rng.integers(1, 4))):
                before = [mat(x.pos4d) for x in g.elements]
                uniform = np.allclose(np.linalg.norm(pos[:3, :3], axis=0), np.linalg.norm(pos[:3, 0]))
                turn = rng.random() < 0.4 and uniform and all(np.allclose(c[:3, 3], 0) for c in Cs)
                C = rand.aff(rng.normal(size=3) * 10, rand.rotation(rng) if turn else None)
                g.move_center(C)
                s.emit('center', name='g', C=mat(C), before=before, after=[mat(x.pos4d) for x in g.elements],
                       pos=mat(g.pos4d), scale=num(scale_of([g])))
                observe(s, {'g': g}, id0={'g': id0})
            # misalignments are then about the new reference point
            U = misalign(rng)
            g.uncertainty = U
            g.generate_elements()
            s.emit('set', name='g', unc=mat(U))
            observe(s, {'g': g}, id0={'g': id0})
            g.uncertainty = np.eye(4)
            g.generate_elements()
            s.emit('set', name='g', unc=mat(EYE))
            observe(s, {'g': g}, id0={'g': id0})


@CHECK.scenario(quick=30, thorough=600, trace='PlacementTrace')
def nested_groups(rec, rng, n):
    """groups of groups, groups of stacks"""
    for j in range(n):
        with rec.session('nested groups') as s:
            k = int(rng.integers(1, 4))
            ep, Ms = elempos(rng, k)
            ck, Cs = common(rng, k)
            g, id0, (pos, _, oM, ea, oC) = build(rng, s, 'g', cls=Parallel,
                                                 args={'elem_class': Rec, 'elem_args': ck,
                                                       'elem_pos': tuple(ep) if isinstance(ep, list) else ep})
            if rng.random() < 0.6:
                S = [misalign(rng) for i in oM]
                g.elem_uncertainty = S
                g.uncertainty = U = misalign(rng)
                g.generate_elements()
                s.emit('set', name='g', sig=[mat(x) for x in S], unc=mat(U))
            for i, e in enumerate(g.elements):
                s.emit('inner', outer='g', i=i + 1, e=[mat(x) for x in Ms], c=[mat(x) for x in Cs],
                       M=[mat(x.pos4d) for x in e.elements], scale=num(10 * scale_of([g, e])))
            st, _, _ = build(rng, s, 'st', cls=FlatStack, args={
                'elements': [EnergyFilter, FlatDetector, Rec, Rec, Rec, Rec],
                'keywords': [{'filterfunc': lambda x: 0.5}, {'pixsize': 0.1, 'ignore_pixel_warning': True},
                             {}, {}, {}, {}]})
            st.generate_elements()
            s.emit('observe', groups=[{'name': 'st', 'M': [mat(x.elements[q].pos4d) for x in st.elements],
                                       'ids': [], 'id0': 0} for q in range(6)], elems=[], scale=num(scale_of([st])))


@CHECK.scenario(quick=40, thorough=600, trace='PlacementTrace')
def arguments(rec, rng, n):
    for j in range(n):
        with rec.session('arguments') as s:
            m = int(rng.integers(1, 6))
            mk = {'scalar': lambda: float(rng.integers(100)), 'string': lambda: 'x' * m,
                  'list': lambda: [int(x) for x in rng.integers(0, 1000, m)],
                  'other list': lambda: [int(x) for x in rng.integers(0, 1000, m + int(rng.integers(1, 3)))],
                  'tuple': lambda: tuple(int(x) for x in rng.integers(0, 1000, m)),
                  'array': lambda: rng.integers(0, 1000, m)}
            keys = ['tag', 'size', 'mode', 'shape', 'arr']
            args = {k: mk[str(rng.choice(list(mk)))]() for k in keys if rng.random() < 0.8}
            kw = {}
            idc = None
            if rng.random() < 0.5:
                idc = 'chip'
                kw['id_col'] = idc
            if rng.random() < 0.3:
                args['id_col'] = idc = 'own'
            names = None
            if rng.random() < 0.3:
                args['name'] = names = [f'n{i}' for i in range(m)]
            g = Parallel(elem_class=Rec, elem_pos={'position': [np.array([0, i, 0.]) for i in range(m)]},
                         elem_args=args, **kw)

            def tok(v):
                if isinstance(v, (list, tuple, np.ndarray)):
                    return [repr(float(x)) for x in v]
                return [v if isinstance(v, str) else repr(float(v))]
            for again in range(2):
                A = [{'islist': isinstance(v, list), 'val': tok(v)} for k, v in args.items() if k in keys]
                got = [[tok(e.got[k]) for k in args if k in keys] for e in g.elements]
                A.append({'islist': False, 'val': [idc or 'element']})
                got = [x + [[e.id_col]] for x, e in zip(got, g.elements)]
                A.append({'islist': True, 'val': names or [f'Elem {i} in {g.name}' for i in range(m)]})
                got = [x + [[e.name]] for x, e in zip(got, g.elements)]
                if m == 1:   # the same thing whether shared out or not
                    A[-1]['islist'] = True
                s.emit('args', args=A, got=got)
                g.generate_elements()


@CHECK.scenario(quick=30, thorough=1000, trace='PlacementTrace')
def calculated(rec, rng, n):
    """members placed from points, normals and parallels"""
    for j in range(n):
        with rec.session('calculated places') as s:
            m = int(rng.integers(1, 7))
            xyz = rng.normal(size=(m, 3)) * 10
            w = rng.integers(3)
            if w == 0:
                f = rng.normal(size=3) * 30
                ns, N = rand.weighted(rng, f), xyz - f
            elif w == 1:
                f = rng.normal(size=3)
                ns, N = np.append(f, 0), np.tile(f, (m, 1))
            else:
                N = rng.normal(size=(m, 3))
                ns = (lambda N: lambda x: rand.hom(N, 0))(N)
            w = rng.integers(3)
            if w == 0:
                f = rng.normal(size=3) * 30
                ps, P = rand.weighted(rng, f), xyz - f
            elif w == 1:
                f = rng.normal(size=3)
                ps, P = np.append(f, 0), np.tile(f, (m, 1))
            else:
                P = rng.normal(size=(m, 3))
                ps = (lambda P: lambda x, y: rand.hom(P, 0))(P)
            X = rand.hom(xyz, 1)
            Z = 10 ** rng.uniform(-1, 1, 3)
            g = ParallelCalculated(elem_class=Rec, elem_args={'zoom': Z}, pos_spec=X if rng.random() < 0.5 else (lambda: X),
                                   normal_spec=ns, parallel_spec=ps)
            s.emit('frames', xyz=[vec(x) for x in xyz], n=[vec(x) for x in N], p=[vec(x) for x in P],
                   M=[mat(x.pos4d @ np.diag(np.append(1 / Z, 1))) for x in g.elements], scale=num(1000.))
            s.emit('frames', xyz=[vec((0, 0, 0))] * m, n=[vec(x) for x in N], p=[vec(x) for x in P],
                   M=[mat(rand.aff(R=ex2vec_fix(a, b))) for a, b in zip(N, P)], scale=num(1.))


@CHECK.scenario(quick=4, thorough=20, trace='PlacementTrace')
def apertures_do_not_share(rec, rng, n):
    """settings of one element are not inherited by the next one"""
    for j in range(n):
        with rec.session('independent elements') as s:
            rin = float(rng.uniform(0.1, 0.8))
            a = CircleAperture(zoom=[1, 2, 2], r_inner=rin)
            b = RectangleAperture(zoom=2)
            c = CircleAperture(zoom=[1, 2, 2])
            g1 = FlatGrating(d=1e-3, order_selector=OrderSelector([0]), groove_angle=rng.uniform(0.1, 1))
            g2 = FlatGrating(d=1e-3, order_selector=OrderSelector([0]))
            s.emit('args', args=[{'islist': False, 'val': [repr(v)]} for v in (rin, 0., 0., 0.)],
                   got=[[[repr(float(x))] for x in (a.geometry['r_inner'], b.geometry['r_inner'],
                                                     c.geometry['r_inner'], g2.geometry['groove_angle'])]])


@CHECK.scenario(quick=4, thorough=4, trace='PlacementTrace')
def refused(rec, rng, n):
    for j in range(n):
        with rec.session('refused') as s:
            sh = np.eye(4)
            sh[0, 1] = 0.3
            with s.expect_error('shear in misalignment'):
                g = Parallel(elem_class=Rec, elem_pos=[np.eye(4)])
                g.elem_uncertainty = [sh]
                g.generate_elements()
            with s.expect_error('shear in common placement'):
                Parallel(elem_class=Rec, elem_pos=[np.eye(4)], elem_args={'pos4d': sh})
            with s.expect_error('lists of different length'):
                Parallel(elem_class=Rec, elem_pos={'position': [[0, 0, 0]] * 2, 'zoom': [1., 1., 1.]})
            with s.expect_error('stretch by zero'):
                Parallel(elem_class=Rec, elem_pos={'position': [[0, 0, 0]], 'zoom': [0.]})
            with s.expect_error('matrix and position'):
                Parallel(elem_class=Rec, elem_pos=[np.eye(4)], pos4d=np.eye(4), position=[0, 0, 1])
            with s.expect_error('normal parallel to fixed direction'):
                v = rand.unit(rng)
                ex2vec_fix(v, v * rng.choice([-2., 3.]))
