"""Recording of photon tables."""
import numpy as np
from .num import num, vec

STD = ('pos', 'dir', 'polarization', 'energy', 'probability')


def value(v):
    if isinstance(v, (bool, np.bool_)):
        return [1, 0, 0, 0, 0, 1] if v else [0]
    return num(v)


def colvalues(t, name):
    c = t[name]
    d = getattr(c, 'value', c)
    d = np.asarray(d)
    if d.dtype.kind not in 'biuf':
        return None
    return d


def snapshot(t):
    """independent copies of all columns"""
    out = {}
    for n in t.colnames:
        d = colvalues(t, n)
        if d is not None:
            out[n] = np.array(d, copy=True)
    return out


def row(sn, i, cols=None):
    r = {'pos': vec(sn['pos'][i]), 'dir': vec(sn['dir'][i]), 'pol': vec(sn['polarization'][i]),
         'en': num(sn['energy'][i]), 'prob': num(sn['probability'][i]), 'cols': {}}
    for n, d in sn.items():
        if n in STD or (cols is not None and n not in cols):
            continue
        if d.ndim == 1:
            r['cols'][n] = value(d[i])
        elif d.ndim == 2:
            for j in range(d.shape[1]):
                r['cols'][f'{n}_{j}'] = value(d[i, j])
    r['cols']['#'] = [0]        # never empty, so that it is a record for TLC
    return r


def kinds(sn):
    """which columns hold identifiers (integers), numbers or truth values"""
    out = {'#': 'i'}
    for n, d in sn.items():
        k = {'i': 'i', 'u': 'i', 'f': 'f', 'b': 'b'}[d.dtype.kind]
        if d.ndim == 1:
            out[n] = k
        elif d.ndim == 2:
            for j in range(d.shape[1]):
                out[f'{n}_{j}'] = k
    return out
