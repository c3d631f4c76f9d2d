"""C31: event and aspect files of an observation."""
import datetime
import os
import tempfile

import numpy as np
import astropy.units as u
from astropy.coordinates import SkyCoord
from astropy.io import fits
from astropy.table import Table

from . import tlc
from .core import Check, some
from .num import num, vec

from marxs.missions import chandra
from marxs.missions.chandra.fitsheaders import complete_header, sort_columns, add_evt_column_header
from marxs.source import PointSource

CHECK = Check('C31', assumptions=[
    'dates after 2017 (no leap seconds); the time scale (UTC or TT) of DATE-OBS is not judged',
    'sky coordinates are judged for pointings without dither'])
CHECK.mc('FilesMC')
CHECK.mc('FilesMC', 'FilesMC_big.cfg', quick=False)

FOCAL = 10061.65
EPOCH = datetime.datetime(1998, 1, 1)
COLKEYS = ('TLMIN', 'TLMAX', 'TCTYP', 'TCRVL', 'TCDLT', 'TCRPX')


def naive(text):
    for f in ('%Y-%m-%dT%H:%M:%S.%f', '%Y-%m-%dT%H:%M:%S', '%Y-%m-%d'):
        try:
            return (datetime.datetime.strptime(text, f) - EPOCH).total_seconds()
        except ValueError:
            pass
    raise ValueError('no date ' + text)


def now():
    return (datetime.datetime.now(datetime.timezone.utc).replace(tzinfo=None) - EPOCH).total_seconds()


def first(v):
    return v[0] if isinstance(v, (tuple, list)) else v


def token(v):
    v = first(v)
    if isinstance(v, (bool, np.bool_)):
        return f'b:{bool(v)}'
    if isinstance(v, (int, float, np.number)):
        return f'n:{float(v)!r}'
    return f's:{v}'


def iscol(k):
    return k[:5] in COLKEYS and k[5:].isdigit()


def tokens(d):
    return dict({str(k): token(v) for k, v in d.items() if not iscol(k)}, zz='filler')


def colkeys(d):
    out = []
    for k, v in d.items():
        if iscol(k):
            v = first(v)
            out.append({'k': k[:5], 'i': int(k[5:]), 'v': num(0 if isinstance(v, str) else v), 't': v if isinstance(v, str) else ''})
    return out


def a_date(rng):
    d = datetime.datetime(2017, 2, 1) + datetime.timedelta(seconds=float(rng.integers(0, 3 * 10 ** 8)), milliseconds=int(rng.integers(1000)))
    return d.isoformat(timespec='milliseconds')


def times(h, had_date, had_end, t0, t1):
    return dict(tstart=num(first(h['TSTART'])), tstop=num(first(h['TSTOP'])), mjd=num(first(h['OBS-MJD'])), ref=num(first(h['MJDREF'])), exposure=num(first(h['EXPOSURE'])),
                naive=num(naive(first(h['DATE-OBS']))), end=num(naive(first(h['DATE-END']))), haddate=bool(had_date), hadend=bool(had_end),
                now=[num(t0), num(t1)])


def a_header(rng, exposure=None):
    h = {'EXPOSURE': (float(rng.uniform(0.1, 1e5)) if exposure is None else exposure, 'length'), 'EXTNAME': str(rng.choice(['EVENTS', 'ASPECT', 'GTI']))}
    extra = {'OBSERVER': ('me', 'c'), 'MISSION': ('AXAF', 'c'), 'TELESCOP': ('other', 'c'), 'ONTIME': (17., 'c'), 'LIVETIME': (12., 'c'),
             'CONTENT': 'mine', 'HDUNAME': 'name', 'HDUCLAS1': 'cls', 'GRATING': ('HETG', 'c'), 'DATE': '2001-01-01', 'TSTART': (3., ''),
             'TIMEDEL': (0.1, 'c'), 'DATE-OBS': (a_date(rng), 'start'), 'DATE-END': ('2018-05-05T01:02:03.000', ''), 'CREATOR': 'x',
             'TSTOP': (1., ''), 'FOC_LEN': (9., ''), 'OBS-MJD': 5., 'DTCOR': 0, 'CLOCKAPP': False, 'TASSIGN': '', 'TIMEPIXR': (0.5, 'middle')}
    for k in rng.permutation(list(extra)):
        if rng.random() < 0.3 or (k == 'DATE-OBS' and rng.random() < 0.6):
            h[str(k)] = extra[str(k)]
    return h


@CHECK.scenario(quick=60, thorough=1500, trace='FilesTrace', chunks=3)
def headers(rec, rng, n):
    with rec.session('headers') as s:
        for i in range(n):
            h = a_header(rng)
            before = dict(h)
            content = ['ACASOL', 'GTI', 'UNKNOWN', 'asphist'][i % 4]
            cls = ['OGIP', 'TEMPORALDATA', 'ASPECT', 'x'][:int(rng.integers(0, 5))]
            t0 = now()
            if content == 'UNKNOWN' and i % 8 < 4:
                complete_header(h)
                cls = []
            else:
                complete_header(h, None, content, cls)
            t1 = now()
            want = {'CONTENT': token(content), 'HDUNAME': token(h['EXTNAME'])}
            want.update({k: token(v) for k, v in zip(['HDUCLASS', 'HDUCLAS1', 'HDUCLAS2', 'HDUCLAS3'], cls)})
            s.emit('complete', before=tokens(before), after=tokens(h), ontime=num(first(h['ONTIME'])), livetime=num(first(h['LIVETIME'])),
                   **{'class': want}, **times(h, 'DATE-OBS' in before, 'DATE-END' in before, t0, t1))
            two = dict(h)
            complete_header(two, None, content, cls)
            s.emit('again', before=tokens(h), after=tokens(two))


POOL = ['chipx', 'chipy', 'tdetx', 'tdety', 'detx', 'dety', 'x', 'y', 'gridx', 'gridy', 'mirror_x', 'mirror_y', 'ra', 'dec', 'de', 'RA', 'DEC', 'DE',
        'energy', 'time', 'dir', 'pos', 'CCD_ID', 'probability', 'facet', 'order', 'ax', 'by', 'PHA', 'Order2', 'marxs_ra', 'sky', 'box']


@CHECK.scenario(quick=60, thorough=2000, trace='FilesTrace', chunks=2)
def columns(rec, rng, n):
    with rec.session('order of columns') as s:
        for i in range(n):
            names = [str(x) for x in rng.permutation(POOL)[:int(rng.integers(1, len(POOL) + 1))]]
            t = Table({c: (rng.normal(size=(3, 4)) if c in ('dir', 'pos') else rng.normal(size=3)) for c in names})
            t.meta['A'] = ('b', 'c')
            copy = t.copy()
            o = sort_columns(t)
            rank = {c: k for k, c in enumerate(sorted(names))}
            info = lambda c: {'n': c, 'b': c[:-1], 'a': c[-1], 'r': rank.get(c, -1)}
            s.emit('sort', cols=[info(c) for c in names], out=[info(c) for c in o.colnames],
                   same=bool(o.meta == copy.meta and t.colnames == copy.colnames and all(np.array_equal(o[c], copy[c]) for c in names if c in o.colnames)))


def observation(rng, roll, amp, offset, chips=None):
    """photons through the centre of the mirror onto the chips"""
    ra, dec = float(rng.uniform(0.2, 359.8)), float(rng.uniform(-70, 70))
    src = SkyCoord(ra, dec, unit='deg').directional_offset_by(rng.uniform(0, 360) * u.deg, offset * u.deg)
    s = PointSource(coords=src, flux=1. / u.s / u.cm**2, geomarea=1 * u.cm**2)
    p = chandra.LissajousDither(coords=SkyCoord(ra, dec, unit='deg'), roll=roll * u.deg, DitherAmp=amp * u.arcsec)
    if chips is None:
        chips = list(range(10))
    acis = chandra.ACIS(chips=chips, aimpoint=chandra.AIMPOINTS[['ACIS-I', 'ACIS-S'][int(rng.integers(2))]])
    return s, p, acis, (ra, dec), (src.ra.deg, src.dec.deg), chips


def centre(photons):
    photons['pos'] = np.tile([FOCAL, 0., 0., 1.], (len(photons), 1))
    return photons


def photons_of(rng, roll=0., amp=np.zeros(3), offset=0.01, chips=None, exposure=None):
    s, p, acis, aim, src, chips = observation(rng, roll, amp, offset, chips)
    inst = chandra.Chandra(elements=[p, centre, acis])
    exposure = float(rng.uniform(3, 30)) if exposure is None else exposure
    ph = inst(s.generate_photons(exposure * u.s))
    ok = 'x' in ph.colnames
    if ok:
        ph = ph[np.isfinite(ph['x'])]
    return inst, p, ph, aim, src, chips, ok and len(ph) > 0


def good(rng, **kw):
    """gaps between chips are avoided"""
    for _ in range(30):
        o = photons_of(rng, **kw)
        if o[-1]:
            return o
    raise RuntimeError('no photon on a chip')


def file_meta(ph, hdr):
    keep = {}
    for k, v in ph.meta.items():
        if not iscol(k) and len(k) <= 8 and isinstance(first(v), (str, float, int, bool)) and k not in ('COMMENT', 'HISTORY', 'EXTNAME', 'CREATOR'):
            keep[k] = token(v)
    return dict(keep, zz='filler'), dict({k: token(hdr[k]) for k in hdr if k}, zz='filler')


def write_evt(s, inst, ph, path, fresh, rng):
    copy = ph.copy()
    inst.write_evt(ph, path)
    with fits.open(path) as f:
        h, d = f[1].header, f[1].data
        names = [h[f'TTYPE{i + 1}'] for i in range(h['TFIELDS'])]
        back = {'marxs_ra': 'ra', 'marxs_dec': 'dec'}
        same = len(names) == len(copy.colnames)
        for k, c in enumerate(names):
            q = back.get(c, c)
            if c == 'time':
                continue
            same = same and q in copy.colnames and len(d) == len(copy) and bool(np.array_equal(np.asarray(d.field(k)), np.asarray(copy[q])))
        it = rng.permutation(len(copy))[:6] if len(d) == len(copy) else []
        t1 = np.asarray(d['time'], float)
        meta, head = file_meta(ph, h)
        s.emit('evt', n=len(d), nlist=len(copy), same=bool(same), names=names,
               kept=bool(ph.colnames == copy.colnames and all(np.array_equal(ph[c], copy[c]) for c in copy.colnames if c in ph.colnames)),
               t0=vec([copy['time'][i] for i in it]), t1=vec([t1[i] for i in it]), tstart=num(h['TSTART']), tstop=num(h['TSTOP']), meta=meta, head=head, fresh=fresh,
               cols=[c.upper() for c in names], keys=colkeys({k: h[k] for k in h if k}), ra=num(first(copy.meta['RA_PNT'])), dec=num(first(copy.meta['DEC_PNT'])))
        return h, d, names


def write_asol(s, pnt, ph, path, fresh, rng, dt=None):
    kw = {} if dt is None else {'timestep': dt}
    had = dict(ph.meta)
    pnt.write_asol(ph, path, **kw)
    dt = 0.256 if dt is None else dt
    with fits.open(path) as f:
        h, d = f[1].header, f[1].data
        idx = sorted(set([0, len(d) - 1] + rng.integers(0, len(d), 3).tolist()))
        want = pnt.pointing(np.array(idx) * dt)
        rows = [{'i': int(i), 't': num(d['time'][i]), 'p': vec([d['ra'][i], d['dec'][i], d['roll'][i]]), 'want': vec(want[k]), 'q': vec(d['q_att'][i])}
                for k, i in enumerate(idx)]
        meta, head = file_meta(ph, h)
        for k in ('CONTENT', 'HDUNAME', 'HDUCLASS', 'HDUCLAS1', 'HDUCLAS2', 'HDUCLAS3') + tuple(k for k in meta if k[:5] in ('MTYPE', 'MFORM')):
            meta.pop(k, None)
        stale = sum(1 for k in h if iscol(k) or k[:5] in ('MTYPE', 'MFORM'))
        s.emit('asol', n=len(d), dt=num(dt), exposure=num(first(had['EXPOSURE'])), rows=rows, tstart=num(h['TSTART']), tstop=num(h['TSTOP']), head=head, meta=meta,
               stale=stale, fresh=fresh, **{'class': {k: token(v) for k, v in (('CONTENT', 'ACASOL'), ('HDUNAME', 'ASPECT'), ('EXTNAME', 'ASPECT'),
                                                                          ('HDUCLASS', 'OGIP'), ('HDUCLAS1', 'TEMPORALDATA'), ('HDUCLAS2', 'ASPECT'))}})


@CHECK.scenario(quick=30, thorough=600, trace='FilesTrace', chunks=4)
def told_files(rec, rng, n):
    """histories of the model: keywords, columns and files in any order"""
    H = some(rng, tlc.behaviours('FilesGen'), n) + some(rng, tlc.behaviours('FilesGen', 'FilesGenDeep.cfg', num=max(1, n // 3), depth=10, seed=int(rng.integers(10**6))), max(1, n // 3))
    for j, b in enumerate(H):
        with rec.session('files of a photon list') as s, tempfile.TemporaryDirectory() as d:
            amp = np.zeros(3) if j % 3 == 0 else rng.uniform(0, 20, 3) * [1, 1, j % 2]
            roll = float(rng.uniform(-180, 180))
            inst, pnt, ph, aim, src, chips, _ = good(rng, roll=roll, amp=amp, chips=None if j % 2 else [0, 1, 2, 3, 6, 7])
            s.emit('instr', head=tokens(ph.meta), want={k: token(v) for k, v in (('MISSION', 'AXAF'), ('TELESCOP', 'CHANDRA'), ('INSTRUME', 'ACIS'),
                                                                             ('DETNAM', 'ACIS-' + ''.join(str(c) for c in chips)))})
            fresh = True
            for k, a in enumerate(b):
                path = os.path.join(d, f'{k}.fits')
                if a == 'evt':
                    write_evt(s, inst, ph, path, fresh, rng)
                    fresh = False
                elif a == 'asol':
                    write_asol(s, pnt, ph, path, fresh, rng, None if k % 2 else float(rng.uniform(0.1, 2)))
                    fresh = False
                elif a == 'date':
                    ph.meta['DATE-OBS'] = (a_date(rng), 'start')
                    fresh = True
                elif a == 'observer':
                    ph.meta['OBSERVER'] = (f'me {k}', 'who')
                elif a == 'swap':
                    o = list(ph.colnames)
                    i = int(rng.integers(len(o) - 1))
                    o[i], o[i + 1] = o[i + 1], o[i]
                    ph = ph[o]
                else:
                    c = str(rng.choice([c for c in ph.colnames if c not in ('x', 'y', 'time', 'ra', 'dec', 'pos', 'dir')]))
                    ph.remove_column(c)


@CHECK.scenario(quick=30, thorough=600, trace='FilesTrace', chunks=2)
def event_columns(rec, rng, n):
    pool = ['time', 'energy', 'ENERGY2', 'chipx', 'ChipY', 'TDETX', 'tdety', 'detx', 'DETY', 'pha', 'CCD_ID', 'fltgrade', 'pos', 'ra']
    for i in range(n):
        with rec.session('column keywords') as s:
            names = [str(c) for c in rng.permutation(pool)[:int(rng.integers(0, len(pool)))]]
            for c in (['x', 'y'], ['X', 'Y'], ['x', 'Y'])[i % 3]:
                names.insert(int(rng.integers(len(names) + 1)), c)
            t = Table({c: np.zeros(2) for c in names})
            ra, dec = rng.uniform(0, 360), rng.uniform(-90, 90)
            h = a_header(rng)
            h.update({'INSTRUME': ('ACIS', 'c'), 'RA_PNT': (ra, 'c'), 'DEC_PNT': (dec, 'c')})
            for k in range(int(rng.integers(0, 4))):            # from a table with other columns
                h[f'{rng.choice(COLKEYS)}{int(rng.integers(1, 30))}'] = 77.
            before = dict(h)
            if i % 2:
                add_evt_column_header(h, t)
            else:
                t0 = now()
                complete_header(h, t, ['EVT1', 'evt2'][i // 2 % 2], ['OGIP', 'EVENTS'])
                t1 = now()
                s.emit('complete', before=tokens(before), after=tokens(h), ontime=num(first(h['ONTIME'])), livetime=num(first(h['LIVETIME'])),
                       **{'class': {'HDUCLASS': token('OGIP')}}, **times(h, 'DATE-OBS' in before, 'DATE-END' in before, t0, t1))
            s.emit('cols', cols=[c.upper() for c in names], keys=colkeys(h), ra=num(ra), dec=num(dec))
            g = dict(before, INSTRUME=('HRC', 'c'))
            with s.expect_error('column keywords for an unknown instrument'):
                add_evt_column_header(g, t)
            t2 = t.copy()
            t2['Pos2'] = 0.
            t2['pOS2'] = 0.
            with s.expect_error('column names that differ in case only'):
                add_evt_column_header(dict(before), t2)


@CHECK.scenario(quick=16, thorough=300, trace='FilesTrace', chunks=4)
def pictures(rec, rng, n):
    """a source is found at its place in the picture"""
    for i in range(n):
        upright = i % 4 != 3
        with rec.session('picture of an upright telescope' if upright else 'picture of a rolled telescope') as s, tempfile.TemporaryDirectory() as d:
            inst, pnt, ph, aim, src, chips, _ = good(rng, roll=0. if upright else float(rng.choice([15., -70., 100., 200.])), offset=float(rng.uniform(0, 0.06)))
            if i % 2:
                ph = ph[[str(c) for c in rng.permutation(ph.colnames)]]
            path = os.path.join(d, 'evt.fits')
            h, dat, names = write_evt(s, inst, ph, path, True, rng)
            with fits.open(path) as f:
                h, dat = f[1].header, f[1].data
                ix, iy = names.index('x') + 1, names.index('y') + 1
                g = lambda k: vec([h[f'{k}{ix}'], h[f'{k}{iy}']])
                for k in range(min(5, len(dat))):
                    s.emit('wcs', x=num(dat['x'][k]), y=num(dat['y'][k]), crval=g('TCRVL'), crpix=g('TCRPX'), cdelt=g('TCDLT'), ra=num(src[0]), dec=num(src[1]))


