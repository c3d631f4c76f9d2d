"""C04: containers run their parts in order with per-step hooks and history."""
import numpy as np
from astropy.table import Table

from . import tlc
from .core import Check, some
from .num import num, vec
from . import rand, zoo, phot
from .p_c01 import make_photons

from marxs.simulator import Sequence, Parallel, KeepCol, Propagator, propagate, SimulationSetupError
from marxs.simulator.simulator import BaseContainer
from marxs.optics import FlatDetector

CHECK = Check('C04')
CHECK.mc('ContainersMC')


class Tape:
    """parts and steps that write down when they are called"""

    def __init__(self, s, rng):
        self.s, self.rng, self.n = s, rng, 0

    def part(self, name):
        new = self.rng.random() < 0.5

        def f(photons):
            tin = photons.meta['tok']
            out = photons.copy() if new else photons
            self.n += 1
            out.meta['tok'] = self.n
            self.s.emit('call', kind='part', id=name, **{'in': tin, 'out': self.n})
            return out
        return f

    def step(self, name):
        junk = self.rng.integers(3)

        def f(photons):
            self.s.emit('call', kind='step', id=name, **{'in': photons.meta['tok'], 'out': -1})
            if junk == 1:        # what a step returns does not count
                t = photons.copy()
                t.meta['tok'] = -77
                return t
            if junk == 2:
                return False
        return f


class Instrument(Sequence):
    pass


def random_tree(rng, depth, names):
    if depth == 0 or rng.random() < 0.25:
        names.append(0)
        return {'k': 'leaf', 'id': f'e{len(names)}'}
    t = {'k': 'seq', 'pre': [], 'post': [], 'ch': []}
    for w in ('pre', 'post'):
        for _ in range(int(rng.choice([0, 0, 1, 2]))):
            names.append(0)
            t[w].append(f's{len(names)}')
    for _ in range(int(rng.choice([0, 1, 2, 3, 4]))):
        t['ch'].append(random_tree(rng, depth - 1, names))
    return t


def build(t, tape, top=False):
    if t['k'] == 'leaf':
        return tape.part(t['id'])
    cls = Instrument if tape.rng.random() < 0.3 else Sequence
    kw = {}
    if t['pre'] or tape.rng.random() < 0.5:
        kw['preprocess_steps'] = [tape.step(x) for x in t['pre']]
    if t['post'] or tape.rng.random() < 0.5:
        kw['postprocess_steps'] = [tape.step(x) for x in t['post']]
    return cls(elements=[build(c, tape) for c in t['ch']], **kw)


def run_tree(s, rng, t):
    tape = Tape(s, rng)
    root = build(t, tape)
    photons = Table({'a': [1, 2]})
    photons.meta['tok'] = 0
    for again in range(2):       # a container can be used again
        tape.n += 1
        photons.meta['tok'] = tape.n
        s.emit('tree', tree=t, tok=tape.n)
        photons = root(photons)
        s.emit('end', tok=photons.meta['tok'])


@CHECK.scenario(quick=900, thorough=5000, trace='ContainersTrace')
def every_small_tree(rec, rng, n):
    """the trees of the model: all of depth one, all of depth two (some of those in the quick check)"""
    trees = tlc.behaviours('ContainersGen') + some(rng, tlc.behaviours('ContainersGen', 'ContainersGenDeep.cfg'), n)
    for t in trees:
        with rec.session('small tree') as s:
            run_tree(s, rng, t)


@CHECK.scenario(quick=150, thorough=5000, trace='ContainersTrace')
def random_trees(rec, rng, n):
    for j in range(n):
        with rec.session('random tree') as s:
            t = random_tree(rng, int(rng.integers(1, 6)), [])
            if t['k'] == 'leaf':
                t = {'k': 'seq', 'pre': ['x'], 'ch': [t], 'post': []}
            run_tree(s, rng, t)


@CHECK.scenario(quick=30, thorough=600, trace='ContainersTrace')
def groups(rec, rng, n):
    """pre- and post-steps around the members of a group, and of groups in sequences"""
    for j in range(n):
        with rec.session('group with steps') as s:
            m = int(rng.integers(0, 4))
            tape = Tape(s, rng)

            class Part(FlatDetector):
                def __call__(self, photons):
                    return self.f(photons)
            par = Parallel(elem_class=Part, elem_pos=[rand.aff((0, 3. * i, 0)) for i in range(m)],
                           elem_args={'pixsize': 0.1}, preprocess_steps=[tape.step('p')] * int(rng.integers(0, 2)),
                           postprocess_steps=[tape.step('q')] * int(rng.integers(0, 2)))
            t = {'k': 'seq', 'pre': ['p'] * len(par.preprocess_steps), 'post': ['q'] * len(par.postprocess_steps), 'ch': []}
            for i, e in enumerate(par.elements):
                e.f = tape.part(f'm{i}')
                t['ch'].append({'k': 'leaf', 'id': f'm{i}'})
            outer = Sequence(elements=[tape.part('x'), par, tape.part('y')], preprocess_steps=[tape.step('o')])
            T = {'k': 'seq', 'pre': ['o'], 'post': [], 'ch': [{'k': 'leaf', 'id': 'x'}, t, {'k': 'leaf', 'id': 'y'}]}
            photons = Table({'a': [1]})
            for r, tt in ((par, t), (outer, T)):
                tape.n += 1
                photons.meta['tok'] = tape.n
                s.emit('tree', tree=tt, tok=tape.n)
                photons = r(photons)
                s.emit('end', tok=photons.meta['tok'])
            for bad in ({'elements': [3]}, {'elements': [], 'preprocess_steps': ['no']},
                        {'elements': [tape.part('z')], 'postprocess_steps': [None]}):
                with s.expect_error('parts that cannot be called'):
                    Sequence(**bad)


def table_rows(t):
    sn = phot.snapshot(t)
    return [phot.row(sn, i) for i in range(len(t))]


@CHECK.scenario(quick=40, thorough=800, trace='ContainersTrace')
def by_hand(rec, rng, n):
    """an instrument gives what its parts give one by one, also with history recorders in it"""
    for j in range(n):
        with rec.session('by hand') as s:
            ks = [zoo.KINDS[int(i)] for i in rng.choice(len(zoo.KINDS), int(rng.integers(1, 6)))]
            ks = [k for k in ks if k != 'multilayer mirror' and k != 'quality factor']
            R = rand.rotation(rng)
            els = [zoo.make(k, rng, M=rand.aff(R[:, 0] * (-5. * i), R, [1, 4, 4])).elem for i, k in enumerate(ks)]
            t = make_photons(rng, zoo.Spec('x', None, [zoo.surf(rand.aff((0, 0, 0), R, [1, 4, 4]))], needs=('order',),
                                           angle=0.25), 8)
            seen = {'pos': [], 'probability': []}
            keep = {c: KeepCol(c) for c in seen}
            hooks = [lambda p, c=c: seen[c].append(np.array(p[c].data)) for c in seen] + list(keep.values())
            cut = int(rng.integers(0, len(els) + 1))
            post = rng.random() < 0.5
            inst = Sequence(elements=els, **{'postprocess_steps' if post else 'preprocess_steps': hooks})
            nested = Sequence(elements=[Sequence(elements=els[:cut]), Sequence(elements=els[cut:])])
            seed = int(rng.integers(1 << 30))
            outs = []
            for run in (inst, nested, None):
                np.random.seed(seed)
                p = t.copy()
                if run is None:
                    for e in els:
                        p = e(p)
                else:
                    p = run(p)
                outs.append(table_rows(p))
            s.emit('same', what='container equals parts one by one', a=outs[0], b=outs[2])
            s.emit('same', what='nested containers equal parts one by one', a=outs[1], b=outs[2])
            s.emit('keep', seen=[[vec(r) for r in d] for d in seen['pos']],
                   kept=[[vec(r) for r in np.asarray(d)] for d in keep['pos'].data])
            s.emit('keep', seen=[vec(d) for d in seen['probability']],
                   kept=[vec(np.asarray(d)) for d in keep['probability'].data])
            with s.expect_error('recording a column that is not there'):
                KeepCol('nosuchcolumn')(t)


@CHECK.scenario(quick=120, thorough=3000, trace='ContainersTrace')
def tracks(rec, rng, n):
    """per-photon tracks from the recorder"""
    for j in range(n):
        with rec.session('tracks') as s:
            N, S = int(rng.integers(1, 5)), int(rng.integers(1, 9))
            scale = 10 ** rng.uniform(0, 4.5)
            atol = float(rng.choice([0., 1e-3, 0.01, 1.]))
            d = np.zeros((N, S, 3))
            d[:, 0] = rng.normal(size=(N, 3)) * scale
            for i in range(1, S):
                w = rng.integers(5)
                step = np.zeros((N, 3))
                if w == 1:
                    step = rng.uniform(-1, 1, (N, 3)) * atol * 0.4
                elif w == 2:
                    step[rng.integers(N), rng.integers(3)] = rng.choice([-1, 1]) * (atol * 1.5 + 0.005)
                elif w == 3:
                    step = rng.normal(size=(N, 3)) * scale
                d[:, i] = d[:, i - 1] + step
                if w == 4:                       # back to an earlier place: not consecutive, so it stays
                    d[:, i] = d[:, int(rng.integers(i))]
            kc = KeepCol('pos')
            t = Table({'pos': np.zeros((N, 4)), 'x': np.zeros(N)})
            seq = []
            for i in range(S):
                t['pos'] = rand.hom(d[:, i], 1)
                seq.append(t['pos'].data.copy())
                kc(t)
                if rng.random() < 0.5:           # changing the list later does not change the record
                    t['pos'][:, :3] += 17.
            ev = [[vec(seq[i][p, :3]) for i in range(S)] for p in range(N)]
            for a in (None, atol):
                out = kc.format_positions() if a is None else kc.format_positions(atol=a)
                s.emit('format', d=ev, atol=num(0. if a is None else a), all=a is None,
                       out=[[vec(x) for x in tr] for tr in np.asarray(out)])
            s.emit('keep', seen=[[vec(r) for r in x] for x in seq], kept=[[vec(r) for r in x] for x in np.asarray(kc)])
            with s.expect_error('tracks of nothing'):
                KeepCol('pos').format_positions()
            k2 = KeepCol('x')
            k2(t)
            with s.expect_error('tracks of numbers'):
                k2.format_positions()


@CHECK.scenario(quick=60, thorough=1500, trace='ContainersTrace')
def moving(rec, rng, n):
    for j in range(n):
        with rec.session('moving') as s:
            N = 5
            scale = 10 ** rng.uniform(-1, 4)
            dist = float(rng.normal() * scale)
            t = rand.photons(rng, rng.normal(size=(N, 3)) * scale, rand.unit(rng, N))
            if rng.random() < 0.5:
                t['extra'] = rng.normal(size=N)
            b = phot.snapshot(t)
            if j % 2:
                a = phot.snapshot(propagate(t, dist))
                c = phot.snapshot(propagate(t, -dist))
            else:
                a = phot.snapshot(Propagator(distance=dist)(t))
                c = phot.snapshot(Sequence(elements=[Propagator(distance=-dist)])(t))
            for i in range(N):
                rest = []
                for x in (b, a):
                    r = phot.row(x, i)
                    r.pop('pos')
                    rest.append(r)
                s.emit('move', p0=vec(b['pos'][i]), p1=vec(a['pos'][i]), p2=vec(c['pos'][i]), dir=vec(b['dir'][i]),
                       dist=num(dist), scale=num(100 * scale + 10), rest0=rest[0], rest1=rest[1])
