"""C07: a tolerance campaign runs each setting once, on pristine photons."""
import copy
import hashlib
import zlib

import numpy as np
import astropy.units as u
from astropy.table import Table, MaskedColumn

from . import tlc
from .core import Check, some
from .num import num
from . import rand

from marxs.base import SimulationSequenceElement
from marxs.simulator import Sequence
from marxs.design import tolerancing as tol

CHECK = Check('C07')
CHECK.mc('CampaignMC')


def digest(t):
    h = hashlib.sha1()
    for c in t.colnames:
        h.update(c.encode())
        h.update(np.ascontiguousarray(np.asarray(t[c])).tobytes())
    h.update(repr(sorted((k, str(v)) for k, v in t.meta.items())).encode())
    return h.hexdigest()[:16]


def rep(d):
    return sorted([k, repr(v.value if isinstance(v, u.Quantity) else v)] for k, v in d.items())


class Tape:
    """callables for a campaign that write down when they are called, with what"""

    def __init__(self, s, rng, targets=None):
        self.s, self.rng = s, rng
        self.caller = None
        self.setting = None
        self.results = []
        self.want = targets
        self.messy = rng.random() < 0.7
        self.mess = None

    def wiggle(self, parts, **pars):
        self.setting = dict(pars)
        self.s.emit('wiggle', what=repr(rep(pars)), targets=[getattr(p, 'tok', str(p)) for p in parts], want=self.want)

    def part(self, name, kind='trace'):
        return Part(self, name, kind)

    def analyze(self, photons):
        self.s.emit('analyze', what='', **{'in': digest(photons)})
        r = {'n': len(self.results), 'active': zlib.crc32(repr(rep(self.setting)).encode()), 'R': float(self.rng.random())}
        if self.messy if self.mess is None else self.mess[len(self.results)]:
            photons['probability'] = 0.
            photons.meta['junk'] = 1
        self.results.append(dict(r))
        return r


class Part(SimulationSequenceElement):
    def __init__(self, tape, tok, kind):
        self.t, self.tok, self.kind = tape, tok, kind
        super().__init__(name=tok)

    def __call__(self, photons):
        d = digest(photons)
        callers = photons is self.t.caller
        w = self.t.rng.integers(4)
        out = photons
        if w == 0:
            out = photons.copy()
            out['pos'] = out['pos'] + 1.
        elif w == 1:
            photons['energy'] = photons['energy'] * 1.5
            photons.meta['trace'] = self.tok
        elif w == 2:
            photons['pos'][:, 0] += 1
            photons['extra'] = 1.
        else:
            photons.remove_column('polarization') if 'polarization' in photons.colnames else None
            photons['probability'][0] *= 0.5
        if self.kind == 'before':
            self.t.caller = out
        self.t.s.emit(self.kind, what=self.tok, out=digest(out), callers=callers, **{'in': d})
        return out


class PartA(Part):
    pass


class PartA2(PartA):
    pass


class PartB(Part):
    pass


def param_list(rng):
    keys = ['dx', 'dy', 'rz', 'sigma']
    P = []
    for i in range(int(rng.integers(0, 7))):
        w = rng.integers(5)
        if w == 0 and P:
            P.append(dict(P[int(rng.integers(len(P)))]))      # repeated
        elif w == 1:
            P.append({k: 0. for k in keys})                   # reset
        else:
            P.append({k: float(rng.integers(-5, 6)) for k in keys if rng.random() < 0.7})
    return P


def rec_photons(rng, n=4):
    t = rand.photons(rng, rng.normal(size=(n, 3)), rand.unit(rng, n))
    t.meta['EXPOSURE'] = 1.
    return t


@CHECK.scenario(quick=100, thorough=2500, trace='CampaignTrace', chunks=2)
def single_campaigns(rec, rng, n):
    for j in range(n):
        with rec.session('campaign') as s:
            t = rec_photons(rng)
            tape = Tape(s, rng, ['w'])
            tape.caller = t
            P = param_list(rng)
            P0 = [rep(p) for p in P]
            d0 = digest(t)
            names = [f'p{i}' for i in range(int(rng.integers(1, 4)))]
            s.emit('start', params=[repr(x) for x in P0], energies=[], before=[], reset=[], pristine=d0,
                   parts=[['trace', x] for x in names])
            parts = [tape.part(x) for x in names]
            instrum = parts[0] if len(parts) == 1 and rng.random() < 0.5 else Sequence(elements=parts)
            w = tape.part('w')
            out = tol.run_tolerances(t, instrum, tape.wiggle, [w], P if rng.random() < 0.7 else tuple(P), tape.analyze)
            s.emit('end', results=[rep(o) for o in out],
                   want=[rep({**p, **r}) for p, r in zip(P, tape.results)] if len(P) == len(tape.results) else ['?'],
                   photons0=d0, photons1=digest(t), params0=P0, params1=[rep(p) for p in P])


class Source:
    def __init__(self, tape, rng):
        self.tape, self.rng = tape, rng
        self.energy = None

    def generate_photons(self, t):
        p = rec_photons(self.rng)
        p['energy'] = self.energy.to(u.keV, equivalencies=u.spectral()).value
        self.tape.caller = p
        self.tape.s.emit('generate', what=repr(self.energy), out=digest(p))
        return p


def energies(rng):
    e = np.round(10 ** rng.uniform(-1, 1, int(rng.integers(1, 4))), 3)
    if rng.random() < 0.3:
        e = e[[0] * 2]
    return e * u.keV if rng.random() < 0.6 else (e * 1000) * u.eV


def table_rows(tab):
    rows = []
    for r in tab:
        d = {}
        for c in tab.colnames:
            v = r[c]
            if np.ma.is_masked(v):
                continue
            d[c] = v.item() if hasattr(v, 'item') and not isinstance(v, u.Quantity) else v
        rows.append(d)
    return rows


def finish(s, tape, tab, E, P, P0):
    rows = table_rows(tab)
    ev = [float(getattr(r['energy'], 'value', r['energy'])) for r in rows]
    for r in rows:
        r.pop('energy')
    wave = [r.pop('wave', np.nan) for r in rows]
    en = [e for e in E.to(u.keV).value for p in P]
    if len(en) == len(wave):
        s.emit('waves', en=[num(x) for x in en], wave=[num(float(getattr(w, 'value', w))) for w in wave],
               hc=num(12.398419843320026))
    want = [rep({**p, **r}) + [['energy', repr(float(e))]] for (e, p), r in
            zip([(e, p) for e in E.value for p in P], tape.results)]
    s.emit('end', results=[rep(r) + [['energy', repr(e)]] for r, e in zip(rows, ev)],
           want=want if len(tape.results) == len(E) * len(P) else ['?'],
           photons0='', photons1='', params0=P0, params1=[rep(p) for p in P])


@CHECK.scenario(quick=80, thorough=2000, trace='CampaignTrace', chunks=2)
def energy_campaigns(rec, rng, n):
    for j in range(n):
        with rec.session('campaign with energies') as s:
            tape = Tape(s, rng, ['w'])
            P = param_list(rng) or [{'dx': 1.}]
            P = [p if p else {'dx': 2.} for p in P]
            P0 = [rep(p) for p in P]
            E = energies(rng)
            nb = int(rng.integers(0, 3))
            names = [f'p{i}' for i in range(int(rng.integers(1, 3)))]
            reset = None if rng.random() < 0.5 else {'dx': 0., 'rz': 0.}
            s.emit('start', params=[repr(x) for x in P0], energies=[repr(e) for e in E],
                   before=[['before', f'b{i}'] for i in range(nb)],
                   reset=[['wiggle', repr(rep(reset))]] if reset is not None else [], pristine='none',
                   parts=[['trace', x] for x in names])
            tab = tol.run_tolerances_for_energies(
                Source(tape, rng), E, Sequence(elements=[tape.part(f'b{i}', 'before') for i in range(nb)]),
                Sequence(elements=[tape.part(x) for x in names]), tape.wiggle, [tape.part('w')], P, tape.analyze,
                reset=reset, t_source=3 * u.s)
            finish(s, tape, tab, E, P, P0)


TOLD = {'a': {'dx': 1.}, 'b': {'dx': -2., 'rz': 0.5}, 'reset': {'dx': 0., 'rz': 0.}}


@CHECK.scenario(quick=120, thorough=2500, trace='CampaignTrace', chunks=1)
def told_campaigns(rec, rng, n):
    """every small campaign of the model (some of them in the quick check)"""
    for b in some(rng, [b for b in tlc.behaviours('CampaignGen') if b['p']], n):
        with rec.session('campaign told by the model') as s:
            tape = Tape(s, rng, ['w'])
            tape.mess = b['mess']
            P = [dict(TOLD[p]) for p in b['p']]
            P0 = [rep(p) for p in P]
            E = np.array([1., 0.5])[:b['n']] * u.keV
            names = [f'p{i}' for i in range(int(rng.integers(1, 3)))]
            s.emit('start', params=[repr(x) for x in P0], energies=[repr(e) for e in E], before=[], reset=[], pristine='none',
                   parts=[['trace', x] for x in names])
            tab = tol.run_tolerances_for_energies(Source(tape, rng), E, Sequence(elements=[]),
                                                  Sequence(elements=[tape.part(x) for x in names]), tape.wiggle,
                                                  [tape.part('w')], P, tape.analyze, reset=None, t_source=3 * u.s)
            finish(s, tape, tab, E, P, P0)


@CHECK.scenario(quick=80, thorough=2000, trace='CampaignTrace', chunks=2)
def whole_instruments(rec, rng, n):
    """the instrument is split at the first part that is toleranced"""
    for j in range(n):
        with rec.session('campaign for a class of parts') as s:
            tape = Tape(s, rng)
            cls = [PartA, PartA2, PartB][int(rng.integers(3))]
            sub = bool(rng.random() < 0.5)
            hit = lambda p: isinstance(p, cls) if sub else type(p) is cls
            top, flat = [], []
            for i in range(int(rng.integers(1, 6))):
                grp = [[PartA, PartA2, PartB][int(rng.integers(3))](tape, f'{i}.{k}', 'trace')
                       for k in range(int(rng.choice([1, 1, 2, 3])))]
                flat.append(grp)
                top.append(grp[0] if len(grp) == 1 and rng.random() < 0.7 else Sequence(elements=grp))
            ind = [i for i, grp in enumerate(flat) if any(hit(p) for p in grp)]
            instrum = Sequence(elements=top)
            P = param_list(rng) or [{'dx': 1.}]
            P = [p if p else {'dx': 2.} for p in P]
            P0 = [rep(p) for p in P]
            E = energies(rng)
            if not ind:
                with s.expect_error('campaign for a part that is not there'):
                    tol.run_tolerances_for_energies2(Source(tape, rng), E, instrum, cls, tape.wiggle, P, tape.analyze,
                                                     subclass_ok=sub)
                continue
            for grp in flat[:ind[0]]:
                for p in grp:
                    p.kind = 'before'
            tape.want = [p.tok for grp in flat for p in grp if hit(p)]
            reset = None if rng.random() < 0.5 else {'dx': 0.}
            s.emit('start', params=[repr(x) for x in P0], energies=[repr(e) for e in E],
                   before=[['before', p.tok] for grp in flat[:ind[0]] for p in grp],
                   reset=[['wiggle', repr(rep(reset))]] if reset is not None else [], pristine='none',
                   parts=[['trace', p.tok] for grp in flat[ind[0]:] for p in grp])
            tab = tol.run_tolerances_for_energies2(Source(tape, rng), E, instrum, cls, tape.wiggle, P, tape.analyze,
                                                   reset=reset, subclass_ok=sub)
            finish(s, tape, tab, E, P, P0)


@CHECK.scenario(quick=60, thorough=1500, trace='CampaignTrace')
def scan_lists(rec, rng, n):
    for j in range(n):
        with rec.session('scan lists') as s:
            t = np.unique(np.concatenate([[0.], np.round(rng.uniform(0.01, 50, int(rng.integers(0, 5))), 3)]))
            r = np.unique(np.concatenate([[0.], np.round(rng.uniform(0.001, 1, int(rng.integers(0, 5))), 5)]))
            if j % 3 == 0:   # nanometres and fractions of an arcsec
                t, r = t * 10.**rng.integers(-7, -3), r * 10.**rng.integers(-8, -4)
            f, un = [(1., u.mm), (10., u.cm), (1000., u.m), (1e-3, u.micron)][int(rng.integers(4))]
            g, ur = [(1., u.rad), (np.pi / 180, u.deg), (np.pi / 180 / 60, u.arcmin)][int(rng.integers(3))]
            names = ['dx', 'dy', 'dz', 'rx', 'ry', 'rz'] if rng.random() < 0.5 else ['a', 'b', 'c', 'd', 'e', 'f']
            kw = {} if names[0] == 'dx' else {'names': names}
            glob, ind = tol.generate_6d_wigglelist((t / f) * un, (r / g) * ur, **kw)
            s.emit('six', trans=[num(x) for x in t[1:]], rot=[num(x) for x in r[1:]],
                   glob=[[num(d[k]) for k in names] for d in glob], ind=[[num(d[k]) for k in names] for d in ind],
                   names=sorted(names), keys=sorted(set(k for d in glob + ind for k in d)))
            tab = Table(glob)
            tab['id'] = np.arange(1, len(tab) + 1)
            tab = tab[rng.permutation(len(tab))]
            for k in range(6):
                sel = tol.select_1dof_changed(tab, names[k], **({} if not kw else {'parlist': names}))
                s.emit('select', par=k + 1, cols=names, tab=[[num(row[c]) for c in names] for row in tab],
                       ids=[int(np.flatnonzero(tab['id'] == x)[0]) + 1 for x in sel['id']])


@CHECK.scenario(quick=60, thorough=1500, trace='CampaignTrace')
def selections(rec, rng, n):
    for j in range(n):
        with rec.session('rows for one degree of freedom') as s:
            m = int(rng.integers(1, 5))
            names = [f'par{i}' for i in range(m)]
            N = int(rng.integers(1, 25))
            tab = Table({c: rng.integers(-1, 2, N).astype(float) * rng.choice([1., 1e-9]) for c in names})
            tab['R'] = rng.random(N)
            tab['id'] = np.arange(1, N + 1)
            k = int(rng.integers(m))
            sel = tol.select_1dof_changed(tab, names[k], names)
            s.emit('select', par=k + 1, cols=names, tab=[[num(row[c]) for c in names] for row in tab],
                   ids=[int(x) for x in sel['id']])
