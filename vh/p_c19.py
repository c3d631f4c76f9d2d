"""C19: columns and keywords of calibration tables are interchangeable."""
import copy
import os
import tempfile

import numpy as np
import astropy.units as u
from astropy.table import Table, QTable, MaskedColumn, Column

from . import tlc
from .core import Check, some

from marxs.reduction.ogip import ARF, RMF, ColOrKeyTable

CHECK = Check('C19', assumptions=['every table keeps at least one varying column',
                                  'values written to files are short enough for a FITS header card'])
CHECK.mc('TablesMC')
NAMES = ['AA', 'BB', 'CC']


def token(x, unit=None):
    if np.ma.is_masked(x) or x is np.ma.masked:
        return '--'
    un = getattr(x, 'unit', None) or unit
    x = getattr(x, 'value', x)
    un = '' if un is None or un == u.dimensionless_unscaled else ' ' + un.to_string()
    a = np.asarray(x)
    if a.ndim:
        return '[' + ','.join(token(i) for i in a) + ']' + un
    k = a.dtype.kind
    a = a.item()
    if k in 'iu':
        return f'i:{a}' + un
    if k == 'f':
        return f'f:{a!r}' + un
    if k == 'b':
        return f'b:{a}' + un
    if k == 'S':
        a = a.decode()
    return f's:{a}' + un


def tokens(v, n):
    if np.ndim(v) == 0 or (np.ndim(v) == 0 and isinstance(v, str)):
        return [token(v)] * n
    return [token(x) for x in v]


def show(tabs):
    out = []
    for i, t in tabs.items():
        names = [c for c in list(t.colnames) + list(t.meta) if c in NAMES + ['rr', 'ENERG_LO', 'ENERG_HI', 'SPECRESP']]
        names = sorted(set(names))
        seen, rows = {}, {}
        for c in names:
            try:
                seen[c] = tokens(t[c], len(t))
            except Exception as ex:
                seen[c] = [f'{type(ex).__name__}: {ex}'[:80]]
            try:
                rows[c] = [token(t[j][c]) for j in range(len(t))]
            except Exception as ex:
                rows[c] = [f'{type(ex).__name__}: {ex}'[:80]]
        out.append({'id': i, 'n': len(t), 'columns': list(t.colnames), 'keys': [str(k) for k in t.meta],
                    'seen': seen, 'rows': rows})
    return out


POOL = {'i': [1, 2, 3], 'f': [0.25, 1.5, -3.], 's': ['abc', 'abd', 'xyz'], 'b': [True, False]}


def draw(rng, kind, n, same):
    p = POOL[kind]
    if same:
        return [p[int(rng.integers(len(p)))]] * n
    return [p[int(k)] for k in rng.integers(len(p), size=n)]


def make(rng, names, cls, n):
    t = cls()
    if cls is ARF:
        lo = np.arange(n) + 1.
        t['ENERG_LO'] = lo * u.keV
        t['ENERG_HI'] = (lo + 1) * u.keV
        t['SPECRESP'] = rng.integers(1, 9, n) * 0.5 * u.cm**2 if rng.random() < 0.7 else rng.integers(1, 3, n) * 0.5
        t.meta.update({'TELESCOP': 'abc', 'INSTRUME': 'xyz', 'FILTER': 'none'})
    else:
        t['rr'] = np.arange(n)
    return t


class World:
    def __init__(self, s, rng, cls, n):
        self.s, self.rng = s, rng
        self.tabs = {}
        self.kinds = {}
        self.held = None
        t = make(rng, NAMES, cls, n)
        self.put('t0', t)
        s.emit('start', id='t0', n=len(t), val={c: tokens(t[c], n) for c in t.colnames + [k for k in t.meta if k == 'SPECRESP']},
               tabs=show(self.tabs))

    def put(self, i, t, kinds=None):
        self.tabs[i] = t
        self.kinds[i] = dict(kinds or {})

    def pick(self):
        ids = list(self.tabs)
        return ids[int(self.rng.integers(len(ids)))]

    def emit(self, k, **f):
        self.s.emit(k, tabs=show(self.tabs), **f)

    def assign(self):
        rng, i = self.rng, self.pick()
        t = self.tabs[i]
        n = len(t)
        nm = NAMES[int(rng.integers(3))]
        how = str(rng.choice(['scalar', 'list', 'array', 'column', 'array', 'list', 'quantity', '2d', 'masked', 'inf', 'nan', 'plain unit',
                              'scalar quantity']))
        kind = str(rng.choice(list('iifsb')))
        same = rng.random() < 0.5
        plain, cell = True, kind
        if how == 'scalar':
            v = draw(rng, kind, 1, True)[0]
            if rng.random() < 0.5 and kind in 'if':
                v = np.array(v)[()]
        elif how == 'list':
            v = draw(rng, kind, n, same)
        elif how == 'array':
            v = np.array(draw(rng, kind, n, same))
        elif how == 'column':
            v = (Table if rng.random() < .5 else ColOrKeyTable)({'zz': Column(draw(rng, kind, n, same))})['zz'] if not same else \
                Column(draw(rng, kind, n, same))
            if np.ndim(v) == 0:
                v = np.asarray(v)[()]
        elif how == 'quantity':
            v = np.array(draw(rng, 'f', n, same)) * u.keV
            plain, cell = False, 'q'
        elif how == 'plain unit':
            v = np.array(draw(rng, 'f', n, same)) * u.dimensionless_unscaled
            cell = 'x'
        elif how == 'scalar quantity':
            v = draw(rng, 'f', 1, True)[0] * u.keV
            plain, cell = False, 'q'
        elif how == '2d':
            v = np.array(draw(rng, 'f', n, same))[:, None] * np.ones(2)
            plain, cell = False, 'x'
        elif how == 'masked':
            v = MaskedColumn(draw(rng, 'f', n, same), mask=np.arange(n) == int(rng.integers(n)))
            plain, cell = False, 'x'
        else:
            v = np.array(draw(rng, 'f', n, same))
            v[:] = np.inf if how == 'inf' else np.nan
            plain, cell = False, 'x'
        tok = tokens(v, n)
        t[nm] = v
        self.kinds[i][nm] = cell
        if self.held and self.held[0] == i and self.held[1] == nm:
            self.held = None
        self.emit('assign', id=i, name=nm, v=tok, plain=plain)

    def rows_key(self, n):
        rng = self.rng
        how = int(rng.integers(6))
        if how == 0:
            k = int(rng.integers(n))
        elif how == 1:
            k = -int(rng.integers(1, n + 1))
        elif how == 2:
            a = int(rng.integers(n))
            k = slice(a, int(rng.integers(a + 1, n + 1)))
        elif how == 3:
            k = slice(None)
        elif how == 4:
            k = rng.random(n) < 0.6
        else:
            k = list(map(int, rng.permutation(n)[:int(rng.integers(1, n + 1))]))
        rows = np.atleast_1d(np.arange(n)[k])
        return k, [int(r) for r in rows]

    def elem(self):
        rng, i = self.rng, self.pick()
        t = self.tabs[i]
        n = len(t)
        if self.held is not None and rng.random() < 0.5:
            i, nm, c = self.held
            t = self.tabs[i]
            n = len(t)
        else:
            cand = [c for c in NAMES if c in t.colnames and self.kinds[i].get(c, 'x') in 'ifsbq']
            if not cand:
                return
            nm = cand[int(rng.integers(len(cand)))]
            c = t[nm]
            if rng.random() < 0.4 and self.kinds[i][nm] != 'q':
                self.held = (i, nm, c)
        kind = self.kinds[i][nm]
        k, rows = self.rows_key(n)
        un = u.keV if kind == 'q' else 1
        kind = 'f' if kind == 'q' else kind
        one = rng.random() < 0.5 or np.ndim(k) == 0 and not isinstance(k, slice)
        if one:
            v = draw(rng, kind, 1, True)[0]
            vals = [v] * len(rows)
        else:
            vals = draw(rng, kind, len(rows), rng.random() < 0.4)
            v = np.array(vals) if rng.random() < 0.5 or un != 1 else vals
            if not len(rows):
                return
        if un != 1:
            v = v * un
            vals = [x * un for x in vals]
        if np.ndim(k) == 0 and not isinstance(k, slice) and rng.random() < 0.4 and self.tabs[i].colnames.count(nm) and un == 1:
            t[k][nm] = v          # through the row
        else:
            c[k] = v
        self.emit('elem', id=i, sets=[{'name': nm, 'rows': [r + 1 for r in rows], 'v': [token(x) for x in vals]}])

    def setrow(self):
        rng, i = self.rng, self.pick()
        t = self.tabs[i]
        names = list(t.colnames)
        if any(c not in NAMES + ['rr'] or self.kinds[i].get(c, 'i') not in 'ifsb' for c in names):
            return
        j = int(rng.integers(len(t)))
        v = {c: draw(rng, self.kinds[i][c], 1, True)[0] if c in NAMES else int(t['rr'][j]) for c in names}
        t[j] = tuple(v[c] for c in names)
        self.emit('elem', id=i, sets=[{'name': c, 'rows': [j + 1], 'v': [token(v[c])]} for c in names if c in NAMES])

    def select(self):
        rng, i = self.rng, self.pick()
        t = self.tabs[i]
        for _ in range(20):
            k, rows = self.rows_key(len(t))
            if len(rows) >= 2:
                break
        else:
            return
        to = self.target()
        new = t[np.array(k) if isinstance(k, list) and rng.random() < 0.5 else k]
        if isinstance(k, slice):   # slices share memory with the table they come from
            new = new.copy()
        self.put(to, new, self.kinds[i])
        self.emit('select', id=i, to=to, rows=[r + 1 for r in rows])

    def target(self):
        ids = [x for x in ('t0', 't1', 't2') if not (self.held and self.held[0] == x)]
        return ids[int(self.rng.integers(len(ids)))]

    def copy(self):
        rng, i = self.rng, self.pick()
        t = self.tabs[i]
        to = self.target()
        how = int(rng.integers(4))
        new = [lambda: t.copy(), lambda: copy.deepcopy(t), lambda: type(t)(t), lambda: copy.deepcopy(type(t)(t))][how]()
        self.put(to, new, self.kinds[i])
        self.emit('copy', id=i, to=to)

    def trip(self, path):
        i = self.pick()
        t = self.tabs[i]
        to = self.target()
        if 'x' in self.kinds[i].values():
            return
        t.write(path, overwrite=True)
        new = ARF.read(path)
        self.put(to, new, {k: v for k, v in self.kinds[i].items()})
        self.emit('trip', id=i, to=to, hdr=all(new.meta.get(k) == v for k, v in
                                              (('TELESCOP', 'abc'), ('INSTRUME', 'xyz'), ('FILTER', 'none'),
                                               ('HDUCLAS2', 'SPECRESP'), ('HDUCLASS', 'OGIP'))))


@CHECK.scenario(quick=150, thorough=4000, trace='TablesTrace', chunks=3)
def histories(rec, rng, n):
    for j in range(n):
        with rec.session('history of a table') as s:
            w = World(s, rng, ColOrKeyTable, int(rng.integers(2, 5)))
            for _ in range(int(rng.integers(4, 12))):
                op = rng.choice(['assign'] * 4 + ['elem'] * 4 + ['setrow', 'select', 'copy'])
                getattr(w, op)()


class Told(World):
    """does what a behaviour generated from the specification says"""

    def do(self, e):
        t = self.tabs['t0']
        if e['op'] == 'assign':
            nm = e['name']
            v = list(e['v'])
            if not e['plain']:
                v = np.array(v, dtype=float) * u.keV
                self.kinds['t0'][nm] = 'q'
            elif len(set(v)) == 1 and self.rng.random() < 0.5:
                v = v[0]
                self.kinds['t0'][nm] = 'i'
            else:
                self.kinds['t0'][nm] = 'i'
                v = np.array(v) if self.rng.random() < 0.5 else v
            tok = tokens(v, len(t))
            t[nm] = v
            self.emit('assign', id='t0', name=nm, v=tok, plain=e['plain'])
        elif e['op'] == 'elem':
            nm, i = e['name'], e['i']
            if nm not in t.colnames:     # a constant with a unit stays a column only in the code's terms
                return
            v = e['v'] * u.keV if self.kinds['t0'][nm] == 'q' else e['v']
            t[nm][i - 1] = v
            self.emit('elem', id='t0', sets=[{'name': nm, 'rows': [i], 'v': [token(float(e['v']) * u.keV) if
                                                                              self.kinds['t0'][nm] == 'q' else token(v)]}])
        elif e['op'] == 'select':
            self.put('t0', t[[r - 1 for r in e['rows']]], self.kinds['t0'])
            self.emit('select', id='t0', to='t0', rows=e['rows'])
        elif e['op'] == 'copy':
            self.put('t1', t.copy(), self.kinds['t0'])
            self.emit('copy', id='t0', to='t1')


def replay(rec, rng, what):
    for b in what:
        with rec.session('history told by the model') as s:
            w = Told(s, rng, ColOrKeyTable, b[0]['n'])
            for e in b[1:]:
                w.do(e)


@CHECK.scenario(quick=500, thorough=20000, trace='TablesTrace')
def all_short_histories(rec, rng, n):
    """every history of three steps of the model (a part of them in the quick check)"""
    replay(rec, rng, some(rng, tlc.behaviours('TablesGen'), n))


@CHECK.scenario(quick=60, thorough=1500, trace='TablesTrace', chunks=2)
def told_histories(rec, rng, n):
    """random long behaviours of the model"""
    replay(rec, rng, some(rng, tlc.behaviours('TablesGen', 'TablesGenDeep.cfg', num=n, depth=12, seed=int(rng.integers(10**6))), n))


@CHECK.scenario(quick=60, thorough=1200, trace='TablesTrace', chunks=3)
def files(rec, rng, n):
    with tempfile.TemporaryDirectory() as d:
        for j in range(n):
            with rec.session('history of an effective area file') as s:
                w = World(s, rng, ARF, int(rng.integers(2, 5)))
                for _ in range(int(rng.integers(4, 12))):
                    op = rng.choice(['assign'] * 3 + ['elem'] * 3 + ['select', 'copy', 'trip', 'trip'])
                    if op == 'trip':
                        w.trip(os.path.join(d, f'a{j}.arf'))
                    else:
                        getattr(w, op)()


def arf():
    t = ARF({'ENERG_LO': [1., 2.] * u.keV, 'ENERG_HI': [2., 3.] * u.keV, 'SPECRESP': [3., 4.] * u.cm**2})
    t.meta.update({'TELESCOP': 'abc', 'INSTRUME': 'xyz', 'FILTER': 'none'})
    return t


def rmf():
    mat = ColOrKeyTable({'ENERG_LO': [1., 2.] * u.keV, 'ENERG_HI': [2., 3.] * u.keV, 'N_GRP': [1, 1], 'F_CHAN': [1, 2],
                         'N_CHAN': [2, 1], 'MATRIX': np.array([[.5, .5], [1., 0]])})
    eb = ColOrKeyTable({'CHANNEL': [1, 2], 'E_MIN': [1., 2.] * u.keV, 'E_MAX': [2., 3.] * u.keV})
    for t in (mat, eb):
        t.meta.update({'TELESCOP': 'abc', 'INSTRUME': 'xyz', 'FILTER': 'none', 'CHANTYPE': 'PI'})
    return mat, eb


@CHECK.scenario(quick=1, thorough=1, trace='TablesTrace')
def refused(rec, rng, n):
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, 'x.fits')
        with rec.session('files with something missing') as s:
            for k in ('TELESCOP', 'INSTRUME', 'FILTER'):
                t = arf()
                del t.meta[k]
                with s.expect_error(f'ARF without keyword {k}'):
                    t.write(p, overwrite=True)
            for c in ('ENERG_LO', 'ENERG_HI', 'SPECRESP'):
                t = arf()
                t.remove_column(c)
                with s.expect_error(f'ARF without column {c}'):
                    t.write(p, overwrite=True)
                t = Table(arf())
                t.remove_column(c)
                t.write(p, overwrite=True, format='fits')
                with s.expect_error(f'reading an ARF without column {c}'):
                    ARF.read(p)
            for which in (0, 1):
                for k in ('TELESCOP', 'INSTRUME', 'FILTER', 'CHANTYPE', 'DETCHANS'):
                    m = rmf()
                    if k != 'DETCHANS':
                        del m[which].meta[k]
                        with s.expect_error(f'RMF without keyword {k} in part {which}'):
                            RMF(*m)
                    m = rmf()
                    r = RMF(*m)
                    r.write(p, overwrite=True, TLMIN=1)
                    from astropy.io import fits
                    with fits.open(p) as h:
                        del h[1 + which].header[k]
                        h.writeto(p + '2', overwrite=True)
                    with s.expect_error(f'reading an RMF without keyword {k} in part {which}'):
                        RMF.read(p + '2')
                    del [r.matrix, r.ebounds][which].meta[k]
                    with s.expect_error(f'writing an RMF without keyword {k} in part {which}'):
                        r.write(p, overwrite=True, TLMIN=1)
                r = RMF(*rmf())
                if which:
                    r.matrix.meta['TLMIN4'] = 1
                else:
                    r.ebounds.meta['TLMIN1'] = 1
                with s.expect_error(f'writing an RMF without first channel in part {1 - which}'):
                    r.write(p, overwrite=True)
                for c in (('ENERG_LO', 'ENERG_HI', 'N_GRP', 'F_CHAN', 'N_CHAN', 'MATRIX'), ('CHANNEL', 'E_MIN', 'E_MAX'))[which]:
                    m = rmf()
                    (m[which].remove_column(c) if c in m[which].colnames else m[which].meta.pop(c))
                    with s.expect_error(f'RMF without column {c}'):
                        RMF(*m)
                    r = RMF(*rmf())
                    r.write(p, overwrite=True, TLMIN=1)
                    r = RMF.read(p)
                    t = [r.matrix, r.ebounds][which]
                    (t.remove_column(c) if c in t.colnames else t.meta.pop(c))
                    with s.expect_error(f'writing an RMF without column {c}'):
                        r.write(p, overwrite=True, TLMIN=1)
