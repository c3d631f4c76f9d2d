"""C23: searching an instrument."""
import numpy as np
from astropy.table import Table

from . import tlc
from .core import Check, some

from marxs.base import SimulationSequenceElement, MarxsElement
from marxs.simulator import Sequence, Parallel, BaseContainer, KeepCol, Propagator
from marxs.optics import (FlatDetector, FlatGrating, CATGrating, FlatOpticalElement, RectangleAperture,
                          MultiAperture, FlatStack, EnergyFilter, Baffle, OrderSelector)
from marxs.optics.base import OpticalElement

CHECK = Check('C23')
CHECK.mc('SearchMC')


class MyDetector(FlatDetector):
    pass


class MySequence(Sequence):
    pass


class MyMySequence(MySequence):
    pass


class MyParallel(Parallel):
    pass


class MyStack(FlatStack):
    pass


class MyStack2(FlatStack):
    def __init__(self, **kwargs):
        super().__init__(elements=[EnergyFilter, MyDetector], keywords=[{'filterfunc': lambda x: 1.}, {}], **kwargs)


LEAFS = [lambda: FlatDetector(), lambda: MyDetector(), lambda: FlatGrating(d=1., order_selector=OrderSelector([0])),
         lambda: CATGrating(d=1., order_selector=OrderSelector([0])), lambda: Baffle(), lambda: RectangleAperture(),
         lambda: FlatStack(elements=[EnergyFilter, FlatDetector], keywords=[{'filterfunc': lambda x: 1.}, {}]),
         lambda: MyStack(elements=[FlatDetector], keywords=[{}]), lambda: KeepCol('pos'), lambda: (lambda p: p), lambda: np.abs]
CLASSES = [FlatDetector, MyDetector, FlatGrating, CATGrating, FlatOpticalElement, OpticalElement, Sequence, MySequence,
           MyMySequence, Parallel, MyParallel, BaseContainer, MarxsElement, SimulationSequenceElement, object, MultiAperture,
           FlatStack, EnergyFilter, RectangleAperture, Baffle, KeepCol, type(lambda x: x), Propagator]


class Tree:
    """builds a nested instrument and remembers what it put where"""

    def __init__(self, rng, leafs, conts):
        self.rng, self.leafs, self.conts = rng, leafs, conts
        self.names, self.keep, self.places, self.objs = {}, [], [], {}

    def name(self, o):
        if id(o) not in self.names:
            self.names[id(o)] = len(self.names) + 1
            self.keep.append(o)
        return self.names[id(o)]

    def leaf(self):
        if self.keepleaf and self.rng.random() < 0.1:
            return self.keepleaf[int(self.rng.integers(len(self.keepleaf)))]
        o = self.leafs[int(self.rng.integers(len(self.leafs)))]()
        node = o, ([(e, []) for e in o.elements] if isinstance(o, FlatStack) else [])
        self.keepleaf.append(node)
        return node

    keepleaf = None

    def make(self, depth, width):
        """-> object, children (None for a leaf)"""
        if self.keepleaf is None:
            self.keepleaf, self.keepcont = [], []
        r = self.rng.random()
        if self.keepcont and r < 0.05:
            return self.keepcont[int(self.rng.integers(len(self.keepcont)))]
        kind = self.conts[int(self.rng.integers(len(self.conts)))]
        n = int(self.rng.choice([0, 1, 1, 2, 2, 3, width]))
        if kind in (Parallel, MyParallel):
            cl = [FlatDetector, MyDetector, CATGrating, MyStack2][int(self.rng.integers(4))] if self.plain else self.plainclass
            args = {'order_selector': OrderSelector([0]), 'd': 1.} if cl is CATGrating else {}
            o = kind(elem_class=cl, elem_pos=[np.eye(4)] * n, elem_args=args)
            ch = [(e, [(x, []) for x in e.elements] if isinstance(e, FlatStack) else []) for e in o.elements]
        elif kind is MultiAperture:
            ch = [(RectangleAperture(), []) for _ in range(max(1, n))]
            o = MultiAperture(elements=[c[0] for c in ch])
        else:
            ch = [self.make(depth - 1, width) if depth > 0 and self.rng.random() < 0.5 else self.leaf() for _ in range(n)]
            o = kind(elements=[c[0] for c in ch])
        self.keepcont.append((o, ch))
        return o, ch

    plain = True
    plainclass = None

    def describe(self, node, path=()):
        o, ch = node
        self.places.append({'path': list(path), 'obj': self.name(o), 'kinds': [c.__name__ for c in type(o).__mro__],
                            'cont': bool(ch)})
        self.objs[tuple(path)] = o
        for i, c in enumerate(ch):
            self.describe(c, path + (i + 1,))

    def same(self, node):
        o, ch = node
        if not ch:
            return True
        return len(o.elements) == len(ch) and all(a is b[0] and self.same(b) for a, b in zip(o.elements, ch))


@CHECK.scenario(quick=250, thorough=6000, trace='SearchTrace', chunks=4)
def search(rec, rng, n):
    for j in range(n):
        with rec.session('search in a nested instrument') as s:
            t = Tree(rng, LEAFS, [Sequence, Sequence, MySequence, MyMySequence, Parallel, MyParallel, MultiAperture])
            root = t.make(int(rng.integers(0, 5)), int(rng.integers(2, 6)))
            t.describe(root)
            s.emit('build', places=t.places)
            starts = [p for p, o in t.objs.items() if isinstance(o, BaseContainer)]
            if len(t.places) > 60:
                continue
            for _ in range(10):
                p = () if rng.random() < 0.6 else starts[int(rng.integers(len(starts)))]
                o = t.objs[p]
                if rng.random() < 0.3:
                    cls = CLASSES[int(rng.integers(len(CLASSES)))]
                else:   # a class that occurs, or something it is derived from
                    c = type(list(t.objs.values())[int(rng.integers(len(t.objs)))])
                    cls = c.__mro__[int(rng.integers(len(c.__mro__)))] if rng.random() < 0.6 else c
                sub, stop = bool(rng.random() < 0.6), bool(rng.random() < 0.5)
                if rng.random() < 0.7:
                    how = rng.random()
                    if how < 0.2 and not sub and not stop:
                        out = o.elements_of_class(cls)
                    elif how < 0.5:
                        out = o.elements_of_class(cls, sub, stop)
                    else:
                        out = o.elements_of_class(cls, subclass_ok=sub, stop_at_first=stop)
                    got = [t.name(x) for x in out]
                    if isinstance(out, list):
                        del out[:]      # what a caller does with the answer is his own business
                    s.emit('find', root=list(p), cls=cls.__name__, sub=sub, stop=stop, got=got, same=t.same(root))
                else:
                    if not sub and rng.random() < 0.3:
                        out = o.first_of_class_top_level(cls)
                    else:
                        out = o.first_of_class_top_level(cls, subclass_ok=sub)
                    s.emit('first', root=list(p), cls=cls.__name__, sub=sub, got=-1 if out is None else int(out), same=t.same(root))


class MyMyDetector(MyDetector):
    pass


KINDS = {'C': Sequence, 'D': MySequence, 'E': MyDetector, 'F': MyMyDetector}


@CHECK.scenario(quick=100, thorough=6000, trace='SearchTrace', chunks=2)
def told_instruments(rec, rng, n):
    """instruments of the model: all small ones and random larger ones, every search in them"""
    H = some(rng, tlc.behaviours('SearchGen'), n) + \
        some(rng, tlc.behaviours('SearchGen', 'SearchGenDeep.cfg', num=max(2, n // 40), depth=9, seed=int(rng.integers(10**6))), n // 4)
    for b in H:
        with rec.session('instrument told by the model') as s:
            t = Tree(rng, [], [])

            def grow(p):
                kids = [grow(x['path']) for x in b if len(x['path']) == len(p) + 1 and x['path'][:len(p)] == p]
                k = KINDS[next(x['kind'] for x in b if x['path'] == p)]
                return (k(elements=[c[0] for c in kids]) if issubclass(k, Sequence) else k()), kids
            root = grow([])
            t.describe(root)
            s.emit('build', places=t.places)
            for p in [p for p, o in t.objs.items() if isinstance(o, BaseContainer)]:
                o = t.objs[p]
                for cls in (Sequence, MySequence, MyDetector, MyMyDetector, FlatDetector, SimulationSequenceElement):
                    for sub in (False, True):
                        for stop in (False, True):
                            got = [t.name(x) for x in o.elements_of_class(cls, subclass_ok=sub, stop_at_first=stop)]
                            s.emit('find', root=list(p), cls=cls.__name__, sub=sub, stop=stop, got=got, same=t.same(root))
                        out = o.first_of_class_top_level(cls, subclass_ok=sub)
                        s.emit('first', root=list(p), cls=cls.__name__, sub=sub, got=-1 if out is None else int(out), same=t.same(root))


class Probe(FlatOpticalElement):
    calls = None

    def __call__(self, photons, *args, **kwargs):
        Probe.calls.append(self)
        return photons


@CHECK.scenario(quick=60, thorough=1500, trace='SearchTrace')
def beam(rec, rng, n):
    for j in range(n):
        with rec.session('order of the beam') as s:
            t = Tree(rng, [lambda: Probe()], [Sequence, Sequence, MySequence, Parallel, MyParallel])
            t.plain, t.plainclass = False, Probe
            root = t.make(int(rng.integers(1, 5)), int(rng.integers(2, 6)))
            t.describe(root)
            if len(t.places) > 60:
                continue
            s.emit('build', places=t.places)
            Probe.calls = []
            root[0](Table({'pos': np.ones((1, 4)), 'dir': np.ones((1, 4))}))
            s.emit('beam', cls='Probe', calls=[t.name(x) for x in Probe.calls], found=[t.name(x) for x in root[0].elements_of_class(Probe)])
