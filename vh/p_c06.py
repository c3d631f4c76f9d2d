"""C06: misalignments are set absolutely, affect only their target, and reset."""
import numpy as np
import astropy.units as u

from . import tlc
from .core import Check, some
from .num import num, vec, mat
from . import rand
from .p_c05 import Rec, placement, build, observe, layers, scale_of, elempos, common, keywords

from marxs.simulator import Parallel, Sequence
from marxs.simulator.simulator import SimulationSetupError
from marxs.optics import (FlatGrating, CATGrating, FlatDetector, FlatStack, EnergyFilter, CircularDetector, OrderSelector,
                          RadialMirrorScatter, ThinLens, EfficiencyFile)
from marxs.missions.mitsnl.catgrating import CATL1L2Stack, NonParallelCATGrating, L1, L2Abs
from marxs.design import tolerancing as tol
from marxs.missions.mitsnl.tolerances import wiggle_and_bar_tilt

CHECK = Check('C06')
CHECK.mc('PlacementMC')

DOF = ['dx', 'dy', 'dz', 'rx', 'ry', 'rz']


def displacement(rng):
    """keywords and the six numbers they stand for"""
    w = rng.integers(5)
    v = np.zeros(6)
    if w == 0:
        return {}, v
    if w == 1:
        i = int(rng.integers(6))
        v[i] = rng.normal() * (5 if i < 3 else 0.5)
    elif w == 2:
        v[:3] = rng.normal(size=3) * 5
    elif w == 3:
        v[3:] = rng.normal(size=3)
    else:
        v[:3] = rng.normal(size=3) * 5
        v[3:] = rng.uniform(-3, 3, 3)
    return {k: float(x) for k, x in zip(DOF, v) if x != 0 or rng.random() < 0.3}, v


def single(rng, w):
    kw = {'pos4d': placement(rng)}
    if w == 0:
        return FlatDetector(pixsize=0.1, ignore_pixel_warning=True, **kw)
    if w == 1:
        return FlatGrating(d=1e-3, order_selector=OrderSelector([1]), **kw)
    if w == 2:
        return CircularDetector(**kw)
    if w == 3:
        return FlatStack(elements=[EnergyFilter, FlatDetector, FlatGrating],
                         keywords=[{'filterfunc': lambda x: 0.5}, {'ignore_pixel_warning': True},
                                   {'d': 1e-3, 'order_selector': OrderSelector([1])}], **kw)
    if w == 4:
        return CATL1L2Stack(order_selector=OrderSelector([1]), **kw)
    return ThinLens(focallength=100., **kw)


def targets(rng, names, pick=None):
    names = list(names)
    k = int(rng.integers(1, len(names) + 1))
    return [names[int(i)] for i in rng.permutation(len(names))[:k]]


def as_target(rng, objs):
    if len(objs) == 1 and rng.random() < 0.5:
        return objs[0]
    return [list, tuple, iter][int(rng.integers(3))](objs)


@CHECK.scenario(quick=80, thorough=3000, trace='PlacementTrace', chunks=4)
def histories(rec, rng, n):
    """several groups and elements under arbitrary histories of all tools"""
    for j in range(n):
        with rec.session('history of misalignments') as s:
            gs, id0 = {}, {}
            for i in range(int(rng.integers(1, 4))):
                gs[f'g{i}'], id0[f'g{i}'], _ = build(rng, s, f'g{i}')
            el = {}
            for i in range(int(rng.integers(1, 4))):
                el[f'e{i}'] = x = single(rng, rng.integers(6))
                s.emit('elem', name=f'e{i}', M=mat(x.geometry.pos4d), parts=len(layers(x)))
            observe(s, gs, el.items(), id0)
            for c in range(int(rng.integers(2, 9))):
                w = rng.integers(7)
                kw, v = displacement(rng)
                six = [num(x) for x in v]
                if w <= 1:
                    ts = targets(rng, gs)
                    tol.moveglobal(as_target(rng, [gs[t] for t in ts]), **kw)
                    s.emit('tool', tool='moveglobal', targets=ts, v=six)
                elif w == 2:
                    ts = targets(rng, gs)
                    tol.moveindividual(as_target(rng, [gs[t] for t in ts]), **kw)
                    s.emit('tool', tool='moveindividual', targets=ts, v=six)
                elif w == 3:
                    ts = targets(rng, gs)
                    v = np.abs(v)
                    tol.wiggle(as_target(rng, [gs[t] for t in ts]), **{k: abs(x) for k, x in kw.items()})
                    s.emit('wiggle', targets=ts, v=[num(x) for x in v],
                           sigs=[[mat(x) for x in gs[t].elem_uncertainty] for t in ts])
                elif w in (4, 5):
                    ts = targets(rng, el)
                    tol.moveelem(as_target(rng, [el[t] for t in ts]), **kw)
                    s.emit('tool', tool='moveelem', targets=ts, v=six)
                else:       # one member of a group
                    t = str(rng.choice(list(gs)))
                    i = int(rng.integers(len(gs[t].elements)))
                    tol.moveelem(as_target(rng, [gs[t].elements[i]]), **kw)
                    s.emit('tool', tool='movemember', targets=[t], i=i + 1, v=six)
                observe(s, gs, el.items(), id0)
            # everything back
            ts = list(gs)
            tol.moveglobal([gs[t] for t in ts])
            s.emit('tool', tool='moveglobal', targets=ts, v=[num(0)] * 6)
            (tol.wiggle if rng.random() < 0.5 else tol.moveindividual)([gs[t] for t in ts])
            s.emit('tool', tool='moveindividual', targets=ts, v=[num(0)] * 6)
            tol.moveelem(el.values())
            s.emit('tool', tool='moveelem', targets=list(el), v=[num(0)] * 6)
            observe(s, gs, el.items(), id0)


def told(rec, rng, what):
    """tool calls in the order the model made them, on a group and an element at random places"""
    for b in what:
        with rec.session('history told by the model') as s:
            g, i0, _ = build(rng, s, 'g', n=2)
            e = single(rng, rng.integers(6))
            s.emit('elem', name='e', M=mat(e.geometry.pos4d), parts=len(layers(e)))
            for c in b:
                v = [float(x) if i < 3 else x * np.pi / 2 for i, x in enumerate(c['v'])]
                w = [float(x) if i < 3 else x * np.pi / 2 for i, x in enumerate(c['w'])]
                kw = {k: x for k, x in zip(DOF, v) if x != 0 or rng.random() < 0.5}
                six = [num(x) for x in v]
                if c['op'] == 'moveglobal':
                    tol.moveglobal(g, **kw)
                    s.emit('tool', tool='moveglobal', targets=['g'], v=six)
                elif c['op'] == 'moveindividual':
                    tol.moveindividual(g, **kw)
                    s.emit('tool', tool='moveindividual', targets=['g'], v=six)
                elif c['op'] == 'moveelem':
                    tol.moveelem(e, **kw)
                    s.emit('tool', tool='moveelem', targets=['e'], v=six)
                elif c['op'] == 'wiggle':
                    tol.wiggle(g, **{k: abs(x) for k, x in zip(DOF, v)})
                    s.emit('wiggle', targets=['g'], v=[num(abs(x)) for x in v], sigs=[[mat(x) for x in g.elem_uncertainty]])
                else:
                    before = [mat(x.pos4d) for x in g.elements]
                    C = rand.aff(v)
                    g.move_center(C)
                    s.emit('center', name='g', C=mat(C), before=before, after=[mat(x.pos4d) for x in g.elements],
                           pos=mat(g.pos4d), scale=num(scale_of([g])))
                observe(s, {'g': g}, [('e', e)], {'g': i0})


@CHECK.scenario(quick=120, thorough=5000, trace='PlacementTrace', chunks=1)
def all_short_histories(rec, rng, n):
    """every history of two tool calls and one move of the centre (a part of them in the quick check)"""
    told(rec, rng, some(rng, tlc.behaviours('PlacementGen'), n))


@CHECK.scenario(quick=40, thorough=1500, trace='PlacementTrace', chunks=2)
def told_histories(rec, rng, n):
    """random long behaviours of the model"""
    told(rec, rng, some(rng, tlc.behaviours('PlacementGen', 'PlacementGenDeep.cfg', num=n, depth=11, seed=int(rng.integers(10**6))), n))


class Selector:
    def __init__(self, *args, **kwargs):
        self.what = repr((args, sorted(kwargs.items())))


@CHECK.scenario(quick=60, thorough=1500, trace='PlacementTrace', chunks=2)
def attributes(rec, rng, n):
    """attributes, order tables: only what was passed in, last value counts"""
    for j in range(n):
        with rec.session('history of attributes') as s:
            grat = [FlatGrating(d=1e-3, order_selector='design') for i in range(int(rng.integers(2, 5)))]
            scat = [RadialMirrorScatter(inplanescatter=1 * u.arcsec, perpplanescatter=0 * u.arcsec)
                    for i in range(int(rng.integers(1, 4)))]
            obj = {f'g{i}': x for i, x in enumerate(grat)}
            obj.update({f's{i}': x for i, x in enumerate(scat)})

            def look():
                vals = []
                for k, x in obj.items():
                    for a in ('order_selector', '_d', 'inplanescatter', 'perpplanescatter', 'name', 'id_num'):
                        if hasattr(x, a):
                            v = getattr(x, a)
                            v = v.what if isinstance(v, Selector) else repr(v)
                            vals.append([k, a, v, first.setdefault((k, a), v)])
                s.emit('seen', vals=vals)
            first = {}
            look()
            for c in range(int(rng.integers(1, 7))):
                if rng.random() < 0.5:
                    ts = targets(rng, [k for k in obj if k[0] == 'g'])
                    if rng.random() < 0.5:
                        a = [int(x) for x in rng.integers(0, 9, int(rng.integers(0, 3)))]
                        kw = {'p': float(rng.random())} if rng.random() < 0.5 else {}
                        tol.varyorderselector(as_target(rng, [obj[t] for t in ts]), Selector, *a, **kw)
                        s.emit('attr', targets=ts, key='order_selector', val=Selector(*a, **kw).what)
                    else:
                        d = float(rng.uniform(1e-4, 1e-3))
                        tol.varyattribute(as_target(rng, [obj[t] for t in ts]), _d=d)
                        s.emit('attr', targets=ts, key='_d', val=repr(d))
                else:
                    ts = targets(rng, [k for k in obj if k[0] == 's'])
                    vals = {k: rng.uniform(0, 5) * u.arcsec for k in ('inplanescatter', 'perpplanescatter')
                            if rng.random() < 0.7}
                    tol.varyattribute(as_target(rng, [obj[t] for t in ts]), **vals)
                    for k, v in vals.items():
                        s.emit('attr', targets=ts, key=k, val=repr(v))
                look()
            with s.expect_error('unknown attribute'):
                tol.varyattribute(as_target(rng, list(obj.values())), inplanescater=1 * u.arcsec)
            with s.expect_error('order table of a scatter'):
                tol.varyorderselector(scat, Selector)
            with s.expect_error('period of a scatter'):
                tol.varyperiod(scat[0], 1e-4, 0.)
            look()


@CHECK.scenario(quick=40, thorough=1000, trace='PlacementTrace')
def periods(rec, rng, n):
    """the period that is set is the one that is used"""
    for j in range(n):
        with rec.session('periods') as s:
            g, _, _ = build(rng, s, 'g', cls=FlatGrating, n=int(rng.integers(2, 6)),
                            args={'d': 1e-3, 'order_selector': OrderSelector([1])})
            for c in range(int(rng.integers(1, 4))):
                ind = sorted(int(i) for i in rng.permutation(len(g.elements))[:int(rng.integers(1, len(g.elements)))])
                rest = [i for i in range(len(g.elements)) if i not in ind]
                mean = float(rng.uniform(1e-4, 1e-3))
                sig = float(rng.choice([0., mean * rng.uniform(0, 0.1)]))
                used = lambda i: num(float(np.ravel(g.elements[i].d(np.zeros((1, 2))))[0]) * 1e4)
                r0 = [used(i) for i in rest]
                tol.varyperiod(as_target(rng, [g.elements[i] for i in ind]), mean, sig)
                s.emit('period', mean=num(mean * 1e4), sigma=num(sig * 1e4 + 1e-12), d=[used(i) for i in ind],
                       rest0=r0, rest1=[used(i) for i in rest])
            k = [float(g.elements[i]._d) for i in range(len(g.elements))]
            tol.varyperiod(g.elements, 5e-4, 2e-5)
            # one draw for each grating, not one for all
            s.emit('args', args=[{'islist': False, 'val': [str(len(g.elements))]}],
                   got=[[[str(len({e._d for e in g.elements}))]]])


@CHECK.scenario(quick=30, thorough=800, trace='PlacementTrace')
def bar_tilts(rec, rng, n):
    for j in range(n):
        with rec.session('bar tilts') as s:
            gs = {}
            for k in 'ab':
                gs[k], _, _ = build(rng, s, k, cls=CATL1L2Stack, args={'order_selector': OrderSelector([0, 3])})
            for c in range(int(rng.integers(1, 4))):
                kw, v = displacement(rng)
                kw = {k: abs(x) * 1e-2 for k, x in kw.items()}
                mt = float(rng.choice([0., rng.uniform(0, 0.1)]))
                t = str(rng.choice(list(gs)))
                g = gs[t]
                wiggle_and_bar_tilt(as_target(rng, [g]), max_bar_tilt=mt, **kw)
                tilt = []
                for e in g.elements:
                    for x in e.elements:
                        if type(x) is NonParallelCATGrating:
                            tilt.append(num(x.blaze_center))
                s.emit('tilt', name=t, sig=[mat(x) for x in g.elem_uncertainty], tilt=tilt, max=num(mt),
                       w=num(kw.get('ry', 0.)))
                observe(s, {k: x for k, x in gs.items()}, id0={k: x.id_num_offset for k, x in gs.items()})
            f = Parallel(elem_class=Rec, elem_pos=[np.eye(4)])
            with s.expect_error('bar tilt without gratings'):
                wiggle_and_bar_tilt(f, max_bar_tilt=0.1)
