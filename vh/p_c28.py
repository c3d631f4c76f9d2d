"""C28: sampling from tabulated distributions follows the table; random placement errors."""
import numpy as np
from transforms3d import euler

from .core import Check
from .num import num, vec, mat

from marxs.math.random import RandomArbitraryPdf
from marxs.design.uncertainties import generate_facet_uncertainty

CHECK = Check('C28', assumptions=['random numbers are judged by frequencies within six standard deviations',
                                  'angles of placement errors stay below a quarter turn'])
CHECK.mc('SourcesMC')


def table(rng, j):
    k = int(rng.integers(2, [4, 9, 25][j % 3]))
    w = 10 ** rng.uniform(-2, 1, k) if j % 2 else np.ones(k)
    if j % 5 == 0:
        w[rng.integers(1, k)] = 0.         # a bin without width
    x = np.cumsum(w) + rng.uniform(-5, 5)
    y = 10 ** rng.uniform(-3, 3, k) if j % 4 == 0 else rng.uniform(0, 1, k)
    y[rng.random(k) < [0, 0.5][(j // 2) % 2]] = 0
    if not (y[1:] * np.diff(x)).sum():
        w[1:] = 1.
        x = np.cumsum(w)
        y[1 + rng.integers(0, k - 1)] = 1.
    if j % 3 == 0:
        y[0] = 1e4                         # ignored
    return x, y


@CHECK.scenario(quick=240, thorough=4000, trace='SourcesTrace', chunks=4)
def tables(rec, rng, n):
    for j in range(n):
        with rec.session('draws from a table') as s:
            x, y = table(rng, j)
            kw = {}
            if rng.random() < 0.5:
                kw['sort'] = bool(rng.random() < 0.5)
            edges = bool(j % 6 == 5)
            if edges:
                kw['randomize_in_bin'] = False
            x0, y0 = x.copy(), y.copy()
            if j % 3 == 1:
                x, y = list(x), list(y)
            p = RandomArbitraryPdf(x, y, **kw)
            for m in [300, int(rng.integers(0, 30))]:
                d = p(m)
                if m:
                    s.emit('draw', x=vec(x0), y=vec(y0), d=vec(d), n=m, edges=edges)


@CHECK.scenario(quick=20, thorough=100, trace='SourcesTrace')
def refused(rec, rng, n):
    for what, x, y in [('length mismatch', [1, 2, 3], [1, 2]), ('negative density', [1, 2, 3], [1, 2, -1.]),
                       ('undefined density', [1, 2, 3], [1, 2, np.nan]), ('descending edges', [1, 3, 2], [1, 2, 3.]),
                       ('undefined edges', [1, np.nan, 3], [1, 1, 2.])]:
        with rec.session(what) as s:
            with s.expect_error(what):
                RandomArbitraryPdf(np.array(x), np.array(y))


@CHECK.scenario(quick=24, thorough=300, trace='SourcesTrace', chunks=2)
def placement_errors(rec, rng, n):
    for j in range(n):
        with rec.session('random placement errors') as s:
            m = 200
            xyz = 10 ** rng.uniform(-3, 1, 3) * (rng.random(3) > 0.2)
            ang = 10 ** rng.uniform(-4, -1, 3) * (rng.random(3) > 0.2)
            kw = {}
            o = np.zeros(6)
            if j % 3 == 1:
                o[:3] = rng.normal(size=3)
                kw['trans_offset'] = list(o[:3])
            if j % 3 == 2:
                o[3:] = rng.uniform(-0.3, 0.3, 3)
                kw['rot_offset'] = o[3:]
            if j % 7 == 6:
                o[:3] = rng.normal()
                kw['trans_offset'] = o[0]
            P = generate_facet_uncertainty(m, xyz, ang, **kw)
            a = [list(euler.mat2euler(p[:3, :3], 'sxyz')) for p in P]
            s.emit('unc', n=m, P=[mat(p) for p in P], a=[vec(q) for q in a], w=vec(np.r_[xyz, ang]), o=vec(o))
