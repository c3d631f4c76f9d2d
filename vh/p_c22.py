"""C22: provenance tags and consistency checks."""
import datetime
import re

import numpy as np
import astropy.units as u
from astropy.table import Table, QTable

from . import tlc
from .core import Check, some as some_of
from .num import vec
from . import phot

import marxs
from marxs.base import TagVersion, check_meta_consistent, check_energy_consistent
from marxs.simulator import Sequence

CHECK = Check('C22', assumptions=['energies that differ by more than 1e-5 but less than 1e-4 relative may be accepted or refused'])
CHECK.mc('ProvenanceMC')

KEYS = ['ORIGIN', 'CREATOR', 'MARXSVER', 'MARXSGIT', 'MARXSTIM', 'SATELLIT', 'OBS_ID', 'DATE', 'mix']
VALS = ['a', 'b', ('a', 'comment'), 5, 5.5, True, None]


def token(v):
    return f'{type(v).__name__}:{v!r}'


def tokens(d):
    return {str(k): token(v) for k, v in d.items()}


def version():
    """independent reading of the version string: number, then +g<hash>, then .d<date>"""
    base, _, local = marxs.__version__.partition('+')
    if not re.fullmatch(r'[\d.]*\d(\.dev\d+)?', base):
        return None
    out = {'MARXSVER': (base, 'MARXS code version')}
    for part in local.split('.'):
        if re.fullmatch(r'g\w+', part):
            out['MARXSGIT'] = (part[1:], 'Git hash of MARXS code')
        if re.fullmatch(r'd\d+', part):
            out['MARXSTIM'] = (part[1:], 'Date of dirty version ARCUS code')
    return out


def some(rng, n, keys=KEYS):
    return {str(k): VALS[int(rng.integers(len(VALS)))] for k in rng.permutation(keys)[:n]}


def fingerprint(t):
    return [(c, np.asarray(t[c]).tobytes(), str(t[c].unit)) for c in t.colnames]


def day():
    return token((datetime.datetime.now().isoformat()[:10], 'Date/time of computation'))


@CHECK.scenario(quick=60, thorough=2000, trace='ProvenanceTrace', chunks=2)
def tagging(rec, rng, n):
    ver = version()
    for j in range(n):
        with rec.session('history of tags') as s:
            tags, lists = [], []
            for i in range(2):
                kw = some(rng, int(rng.integers(0, 4)), [k for k in KEYS if k != 'MARXSVER' and not k.startswith('MARXS')] + ['MARXSVER'])
                if rng.random() < 0.3:
                    tags.append(TagVersion(name='mytag', **kw))
                else:
                    tags.append(TagVersion(**kw))
                s.emit('setup', id=i, kw=tokens(kw), origin=token(('unkwown', 'Institution where file was created')),
                       creator=token(('MARXS', 'Person or program creating file')))
                t = Table({"energy": [1., 2.]})
                t.meta.update(some(rng, int(rng.integers(0, 3))))
                lists.append(t)
                s.emit('list', id=i, head=tokens(t.meta))
            for _ in range(int(rng.integers(2, 6))):
                i, k = int(rng.integers(2)), int(rng.integers(2))
                call = some(rng, int(rng.integers(0, 3)))
                fp = fingerprint(lists[i])
                days = [day()]
                if not call and rng.random() < 0.4:
                    out = Sequence(elements=[tags[k]])(lists[i])
                else:
                    out = tags[k](lists[i], **call)
                days.append(day())
                s.emit('tag', tag=k, list=i, call=tokens(call), head=tokens(lists[i].meta), days=days, version=tokens(ver or {}),
                       same=bool(fingerprint(lists[i]) == fp), returned=out is lists[i],
                       others=[{'id': 1 - i, 'head': tokens(lists[1 - i].meta)}])


TOLDKEY = {'a': 'ORIGIN', 'b': 'mix'}
TOLDVAL = {1: 'x', 2: ('y', 'comment')}


def told(d):
    return {TOLDKEY[k]: TOLDVAL[v] for k, v in dict(d).items()}


@CHECK.scenario(quick=200, thorough=4000, trace='ProvenanceTrace', chunks=2)
def told_tags(rec, rng, n):
    """histories of the model: two tags, two headers"""
    ver = version()
    H = some_of(rng, tlc.behaviours('ProvenanceGen'), n // 2) + \
        some_of(rng, tlc.behaviours('ProvenanceGen', 'ProvenanceGenDeep.cfg', num=max(2, n // 20), depth=7,
                                    seed=int(rng.integers(10**6))), n // 2)
    for b in H:
        with rec.session('history told by the model') as s:
            tags, lists = [], []
            for i in range(2):
                kw = told(b[0]['setup'][i])
                tags.append(TagVersion(**kw))
                s.emit('setup', id=i, kw=tokens(kw), origin=token(('unkwown', 'Institution where file was created')),
                       creator=token(('MARXS', 'Person or program creating file')))
                lists.append(Table({"energy": [1., 2.]}))
                s.emit('list', id=i, head=tokens(lists[i].meta))
            for e in b[1:]:
                i, k, call = e['h'] - 1, e['i'] - 1, told(e['c'])
                fp = fingerprint(lists[i])
                days = [day()]
                out = tags[k](lists[i], **call)
                days.append(day())
                s.emit('tag', tag=k, list=i, call=tokens(call), head=tokens(lists[i].meta), days=days, version=tokens(ver or {}),
                       same=bool(fingerprint(lists[i]) == fp), returned=out is lists[i],
                       others=[{'id': 1 - i, 'head': tokens(lists[1 - i].meta)}])


@CHECK.scenario(quick=400, thorough=20000, trace='ProvenanceTrace', chunks=2)
def consistency(rec, rng, n):
    default = ['ORIGIN', 'CREATOR', 'MARXSVER', 'MARXSGIT', 'MARXSTIM']
    for j in range(n):
        with rec.session('consistency check') as s:
            a = some(rng, int(rng.integers(0, 6)))
            b = dict(a)
            for _ in range(int(rng.choice([0, 1, 1, 2]))):
                k = KEYS[int(rng.integers(len(KEYS)))]
                if rng.random() < 0.5:
                    b.pop(k, None)
                else:
                    b[k] = VALS[int(rng.integers(len(VALS)))]
            if rng.random() < 0.1:
                b = some(rng, int(rng.integers(0, 6)))
            if rng.random() < 0.5:
                a, b = b, a
            keys = [str(k) for k in rng.permutation(KEYS)[:int(rng.integers(0, 6))]]
            kw, use = {'keywords': keys}, keys
            if j % 4 == 0:
                kw, use = {}, default
            missing = True
            if rng.random() < 0.5:
                missing = bool(rng.random() < 0.6)
                kw['allow_missing'] = missing
            A, B = tokens(a), tokens(b)
            if rng.random() < 0.3:
                a, b = Table(meta=a).meta, Table(meta=b).meta
            try:
                check_meta_consistent(a, b, **kw)
                ok = True
            except (AssertionError, KeyError):
                ok = False
            s.emit('check', a=A, b=B, keys=use, missing=missing, accepted=ok, same=bool(tokens(a) == A and tokens(b) == B))
    with rec.session('two simulations with one program') as s:
        a, b = Table({'energy': [1.]}), Table({'energy': [1.]})
        t = TagVersion(SATELLIT='x')
        t(a), t(b)
        for missing in (True, False):
            try:
                check_meta_consistent(a.meta, b.meta, keywords=['ORIGIN', 'MARXSVER', 'SATELLIT'], allow_missing=missing)
                ok = True
            except (AssertionError, KeyError):
                ok = False
            s.emit('check', a=tokens(a.meta), b=tokens(b.meta), keys=['ORIGIN', 'MARXSVER', 'SATELLIT'], missing=missing, accepted=ok, same=True)


@CHECK.scenario(quick=150, thorough=5000, trace='ProvenanceTrace')
def energies(rec, rng, n):
    for j in range(n):
        m = int(rng.integers(1, 7))
        with rec.session('energies of a list') as s:
            x = np.full(m, float(rng.choice([0.1, 1.5, 24.])))
            how = j % 6
            if how == 1:
                x = x * (1 + rng.uniform(-1, 1, m) * 1e-7)
            elif how == 2:
                x[int(rng.integers(m))] *= 1 + rng.choice([-1, 1]) * 10 ** rng.uniform(-3, -0.1)
            elif how == 3:
                x = rng.uniform(0.2, 7, m)
            elif how == 4:
                x[-1] *= 1 + rng.choice([-1, 1]) * 10 ** rng.uniform(-3, -1)
            elif how == 5 and j % 12 == 5:       # no two neighbours differ by much
                x = x[0] * np.cumprod(np.full(int(rng.integers(60, 120)), 1 + rng.choice([-1, 1]) * 5e-6))
            elif how == 5 and m > 1:
                x[int(rng.integers(m))] = np.nan
            t = Table({'energy': x})
            if rng.random() < 0.5:
                t['energy'].unit = u.keV
            try:
                check_energy_consistent(t)
                ok = True
            except AssertionError:
                ok = False
            if np.isnan(x).any():
                s.emit('refused', what='a list with an undefined energy', raised=not ok)
            else:
                s.emit('energy', x=vec(x), accepted=ok)
    with rec.session('no energies') as s:
        check_energy_consistent(Table({'probability': [1.]}))
        s.emit('noenergy', accepted=True)
        check_energy_consistent(Table({'energy': np.zeros(0)}))
        s.emit('noenergy', accepted=True)
