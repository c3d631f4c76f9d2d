"""Nothing persists between runs, so there is nothing to build ahead: check that the tools work and that
the Java speed-up of Num.tla agrees with its TLA+ definitions."""
import os
import sys
import re

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vh import tlc  # noqa: E402


def numbers(out):
    body = out[out.index('<<'):]
    return re.sub(r'\s', '', body[:body.index('Finished computing')] if 'Finished computing' in body else body)


def tuples(text):
    return re.findall(r'<<(-?\d+(?:,\d+)*)>>|(TRUE|FALSE)', text)


def val(t):
    a = [int(x) for x in t.split(',')]
    if a[0] not in (-1, 0, 1):
        return a[0] * 10 ** 60
    u = 0
    for x in reversed(a[1:]):
        u = u * 10000 + x
    return a[0] * u


_, a = tlc.tlc('NumTest', 'NumTest.cfg', args=['-deadlock', '-nowarning'])
_, b = tlc.tlc('NumTest', 'NumTest.cfg', args=['-deadlock', '-nowarning'], override=False)
if '--quick' not in sys.argv:
    ta, tb = tuples(numbers(a)), tuples(numbers(b))
    assert len(ta) == len(tb) and len(ta) > 1000, (len(ta), len(tb))
    worst = 0
    for (x, bx), (y, by) in zip(ta, tb):
        assert bx == by, (bx, by)
        if x:
            worst = max(worst, abs(val(x) - val(y)))
    assert worst <= 20000, worst   # 2e-12, only the power series
    print(f'Num.java agrees with Num.tla on {len(ta)} values, largest difference {worst}e-16')
