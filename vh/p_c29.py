"""C29: laboratory sources emit from their place into their beam only."""
import numpy as np
import astropy.units as u

from .core import Check
from .num import num, vec, mat
from .p_c15 import place
from . import rand

from marxs.source import LabPointSourceCone, FarLabPointSource

CHECK = Check('C29', assumptions=['random numbers are judged by frequencies within six standard deviations',
                                  'half opening angles from 1e-4 rad'])
CHECK.mc('AperturesMC')


def axis(rng, j):
    """a direction: any, along coordinate axes, or nearly so"""
    if j % 3 == 0:
        return rand.unit(rng)
    e = np.zeros(3)
    e[int(rng.integers(3))] = rng.choice([-1., 1.])
    if j % 3 == 1:
        return e
    return e + 10 ** rng.uniform(-13, -2) * rand.unit(rng)


def run(rng, src, n):
    src.flux = n / 50. / u.s
    t = src([50 * u.s, (50 * u.s).to(u.min)][int(rng.integers(2))])
    return dict(p=[vec(x) for x in t['pos']], d=[vec(x) for x in t['dir']], q=[vec(x) for x in t['polarization']],
                ang=vec(t['polangle']))


def polarized(rng):
    return [{}, {'polarization': rng.uniform(-3, 6) * u.rad}, {'polarization': rng.uniform(0, 360) * u.deg}][int(rng.integers(3))]


@CHECK.scenario(quick=60, thorough=900, trace='AperturesTrace', chunks=4)
def cone(rec, rng, n):
    for j in range(n):
        with rec.session('cone beam') as s:
            x = axis(rng, j)
            c = rng.normal(size=3) * 10 ** rng.uniform(-2, 4)
            h = [np.pi, 10 ** rng.uniform(-4, 0), rng.uniform(0.5, 3.1), np.pi / 2][int(rng.integers(4))]
            kw = polarized(rng)
            f = [1., 10 ** rng.uniform(-3, 3)][int(rng.integers(2))]
            if j % 7 == 0:
                c = np.zeros(3)
            else:
                kw['position'] = [list(c), c.copy(), tuple(c)][int(rng.integers(3))]
            if j % 11 == 0:
                x = np.array([1., 0, 0])
            else:
                kw['direction'] = [list(f * x), f * x][int(rng.integers(2))]
            if j % 5:
                kw['half_opening'] = h
            else:
                h = np.pi
            src = LabPointSourceCone(**kw)
            for rep in range(2):
                m = 240 if rep == 0 else int(rng.integers(1, 9))
                s.emit('beam', c=vec(c), x=vec(x / np.linalg.norm(x)), h=num(h), stat=rep == 0, **run(rng, src, m))


@CHECK.scenario(quick=40, thorough=600, trace='AperturesTrace', chunks=4)
def far(rec, rng, n):
    for j in range(n):
        with rec.session('far source') as s:
            kw, M = place(rng, j, False)
            scale = np.max(np.linalg.norm(M[:3, :3], axis=0))
            c = M[:3, 3] + axis(rng, j) * scale * 10 ** rng.uniform(0.5, 4)
            kw.update(polarized(rng))
            src = FarLabPointSource([list(c), c.copy()][j % 2], **kw)
            for rep in range(2):
                m = 240 if rep == 0 else int(rng.integers(1, 9))
                s.emit('face', c=vec(c), M=mat(M), stat=rep == 0, **run(rng, src, m))


@CHECK.scenario(quick=8, thorough=20, trace='AperturesTrace')
def refused(rec, rng, n):
    for j in range(n):
        with rec.session('wrong number of coordinates') as s:
            with s.expect_error('homogeneous or 2d coordinates'):
                v = list(rng.normal(size=[2, 4][j % 2]))
                LabPointSourceCone(**{['position', 'direction'][(j // 2) % 2]: v})
